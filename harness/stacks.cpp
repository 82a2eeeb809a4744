#include "stacks.h"
#include "../lib/gzipcompressstream.h"
#include <strigi/gzipinputstream.h>
#include <strigi/dataeventinputstream.h>
#include <strigi/encodinginputstream.h>
#include <strigi/stringterminatedsubstream.h>
#include <iconv.h>
#include <iostream>
using namespace Strigi;
using namespace pbt;

std::string Stack::describe() const {
    std::string r = src ? src->desc : "?";
    for (const Level& l : levels) if (!l.what.empty()) r += " > " + l.what;
    return r;
}
void Stack::pop() {
    std::vector<std::function<void()> > f;
    f.swap(levels.back().cleanup);
    levels.pop_back();
    for (auto& g : f) g();
}
namespace {
struct Ignore : DataEventHandler { bool handleData(const char*, uint32_t) { return true; } };
bool isAscii(const Bytes& b) { for (char ch : b) if (ch & 0x80) return false; return true; }
Bytes convert(const char* to, const char* from, const Bytes& in) {
    iconv_t cd = iconv_open(to, from);
    if (cd == (iconv_t)-1) return Bytes();
    Bytes out(in.size() * 8 + 64, '\0');
    char *ip = const_cast<char*>(in.data()), *op = &out[0];
    size_t il = in.size(), ol = out.size();
    size_t r = iconv(cd, &ip, &il, &op, &ol);
    iconv_close(cd);
    out.resize(out.size() - ol);
    if (r == (size_t)-1) out.clear();
    return out;
}
}

// moves the stream below to where a layer's data begins
static bool advance(Choices& c, InputStream* s, int64_t n, bool mayFail) {
    while (n > 0) {
        int64_t step = c.flip() ? n : 1 + (int64_t)c.draw((uint64_t)n);
        int64_t r;
        if (c.flip()) r = s->skip(step);
        else { const char* d; r = s->read(d, (int32_t)step, (int32_t)step); }
        if (r != step) {
            if (mayFail) return false;
            fail("the stream below gives %lld instead of %lld items at %lld: %s", (long long)r, (long long)step, (long long)s->position(), s->error());
        }
        n -= step;
    }
    return true;
}

std::unique_ptr<Stack> buildStack(Choices& c, Bytes content, int depth, const MakeSource& make, bool mayFail) {
    if (depth <= 0) {
        std::unique_ptr<Stack> st(new Stack);
        st->src = make(content);
        Level l;
        l.s = st->src->top();
        l.content = content;
        st->levels.push_back(l);
        return st;
    }
    int layer = (int)c.draw(LayerCount);
    Level l;
    l.content = content;
    if (layer == LCharset && !isAscii(content)) layer = LEvents;
    if (layer == LCompress) { // the compressed data is what the layer delivers: it is made of content first, and undone
        auto st = buildStack(c, content, depth - 1, make, mayFail);
        if (!st) return st;
        auto* z = new GZipCompressInputStream(st->top(), (int)c.draw(10));
        auto* g = new GZipInputStream(z, GZipInputStream::ZLIBFORMAT);
        if (g->status() == Error) { delete g; delete z; if (!mayFail) fail("what the compressing stream writes is not recognized"); return nullptr; }
        l.what = "compress and decompress";
        l.s = g;
        l.content = st->content();
        l.cleanup.push_back([=] { delete g; delete z; });
        st->levels.push_back(l);
        return st;
    }
    if (layer == LEntry) {
        static const std::vector<int> kinds = { Tar, Zip, Ar, Cpio, Rpm, Mail, Ole };
        int kind = c.pick(kinds);
        std::vector<Entry> es;
        size_t at = c.draw(3), n = at + 1 + c.draw(2);
        for (size_t i = 0; i < n; i++) {
            Entry e;
            e.name = "e" + std::to_string(i);
            e.content = i == at ? content : genBytes(c, 700);
            es.push_back(e);
        }
        if (kind == Ole && content.empty()) kind = Tar;
        Archive a = writeArchive(c, kind, es, true);
        if (a.entries.size() != n) fail("harness: archive writer");
        auto st = buildStack(c, a.bytes, depth - 1, make, mayFail);
        if (!st) return st;
        SubStreamProvider* p = makeProvider(kind, st->top());
        InputStream* s = nullptr;
        for (size_t i = 0; i <= at; i++) {
            s = p->nextEntry();
            if (!s) break;
            if (i < at && c.flip()) drain(*s, genPlan(c));
        }
        if (!s) {
            std::string err = p->error();
            if (!mayFail || p->status() != Error) fail("%s entry %zu is missing: status %s %s", kindName(kind), at, statusName(p->status()), err.c_str());
            delete p;
            return nullptr;
        }
        l.what = std::string(kindName(kind)) + " entry";
        l.content = a.entries[at].content;
        l.s = s;
        l.cleanup.push_back([=] { delete p; });
        st->levels.push_back(l);
        return st;
    }
    Bytes below;
    int64_t at = 0;
    std::function<InputStream*(InputStream*)> wrap;
    std::vector<std::function<void()> > extra;
    switch (layer) {
    case LCodec: {
        int codec = (int)c.draw(CodecCount);
        Encoded e;
        if (codec == CLzma) { // any dictionary larger than the known size is not supported
            bool known = content.size() > 4096;
            e.bytes = lzmaEncode(content, 4096, known, !known || c.flip(), &c);
        } else e = encode(c, codec, content);
        Bytes pre = c.flip() ? Bytes() : genBytes(c, 300);
        // base64 has no end but that of the stream
        Bytes post = codec == CBase64 || c.flip() ? Bytes() : genBytes(c, 300);
        below = pre + e.bytes + post;
        at = (int64_t)pre.size();
        l.what = codecName(codec);
        wrap = [codec](InputStream* in) { return makeDecoder(codec, in); };
        break; }
    case LWindow: {
        Bytes pre = genBytes(c, 300), post = genBytes(c, 300);
        below = pre + content + post;
        at = (int64_t)pre.size();
        int64_t n = (int64_t)content.size();
        l.what = "window";
        wrap = [n](InputStream* in) { return new SubInputStream(in, n); };
        break; }
    case LTail: {
        Bytes pre = genBytes(c, 300);
        below = pre + content;
        at = (int64_t)pre.size();
        l.what = "tail";
        wrap = [](InputStream* in) { return new SubInputStream(in); };
        break; }
    case LTerminated: {
        static const std::vector<Bytes> terms = { "--end--", "aab", "$$$$", "\n.\n", "xyxyz" };
        Bytes term = c.pick(terms);
        bool there = !c.chance(1, 6);
        if ((content + term).find(term) != content.size()) { // it would end early: choose one that does not
            term = Bytes("\x01\x02\x01\x03", 4);
            while ((content + term).find(term) != content.size()) term += (char)c.draw(256);
        }
        Bytes pre = c.flip() ? Bytes() : genBytes(c, 100);
        below = pre + content + (there ? term + genBytes(c, 300) : Bytes());
        at = (int64_t)pre.size();
        l.what = there ? "terminated part" : "part without terminator";
        wrap = [term](InputStream* in) { return new StringTerminatedSubStream(in, term); };
        break; }
    case LCharset: {
        static const std::vector<const char*> sets = { "UTF-16LE", "UTF-32BE", "ISO-8859-1", "UTF-8", "IBM037", "UTF-16" };
        const char* cs = c.pick(sets);
        below = convert(cs, "UTF-8", content);
        if (below.empty() && !content.empty()) { cs = "UTF-8"; below = content; }
        l.what = std::string("text in ") + cs;
        wrap = [cs](InputStream* in) { return new EncodingInputStream(in, cs); };
        break; }
    default: {
        below = content;
        Ignore* h = new Ignore;
        l.what = "event stream";
        extra.push_back([=] { delete h; });
        wrap = [h](InputStream* in) { return new DataEventInputStream(in, *h); };
    }
    }
    auto st = buildStack(c, below, depth - 1, make, mayFail);
    if (!st || !advance(c, st->top(), at, mayFail)) { for (auto& f : extra) f(); return nullptr; }
    l.s = wrap(st->top());
    InputStream* s = l.s;
    l.cleanup.push_back([=] { delete s; });
    for (auto& f : extra) l.cleanup.push_back(f);
    st->levels.push_back(l);
    return st;
}
