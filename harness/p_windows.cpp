// C04: a sub-stream never leaves its window
// C05: a terminated part ends at the first terminator, however data arrives
#include "common.h"
#include "huge.h"
#include <strigi/stringterminatedsubstream.h>
using namespace Strigi;
using namespace pbt;

// a source whose stream stands at position 'at' of data
static std::unique_ptr<Source> sourceAt(Choices& c, const Bytes& data, int64_t at, bool* seekable, Delivery* given = nullptr) {
    static const std::vector<int> kinds = { SrcChunk, SrcChunk, SrcString, SrcFile, SrcSkipping, SrcMMap, SrcSubKnown, SrcSubUnknown, SrcFill, SrcGzip };
    std::unique_ptr<Source> src = genSource(c, data, kinds);
    (void)given;
    InputStream* in = src->top();
    *seekable = src->desc == "string" || src->desc == "unbuffered file" || src->desc == "mapped file"
        || (src->desc.compare(0, 7, "chunked") == 0 && src->desc.find("last-segment") == std::string::npos);
    c.note("parent: %s, %zu bytes", src->desc.c_str(), data.size());
    int64_t left = at;
    while (left > 0) {
        int64_t step = c.flip() ? left : 1 + (int64_t)c.draw(left);
        if (c.flip()) {
            int64_t r = in->skip(step);
            REQUIRE(r == step, "parent skip(%lld) returned %lld", (long long)step, (long long)r);
        } else {
            const char* d;
            int32_t r = in->read(d, (int32_t)step, (int32_t)step);
            REQUIRE(r == step, "parent read(%lld) returned %d", (long long)step, r);
        }
        left -= step;
    }
    return src;
}

// windows of several GiB, and nested ones
static void hugeWindow(Choices& c) {
    HugeStream h(c.flip());
    int64_t total = genHugeSize(c, 1ll << 34);
    h.fill(total);
    int64_t start = c.flip() ? c.size(5000) : c.flip() ? std::min<int64_t>(total, (1ll << 31) + c.range(0, 40) - 20) : (int64_t)c.draw((uint64_t)total);
    int64_t avail = total - start;
    bool open = c.chance(1, 4);
    int64_t n = open ? avail : c.flip() ? avail - std::min(avail, (int64_t)c.size(3000)) : (int64_t)c.draw((uint64_t)avail + 1);
    c.note("huge stream of %lld, sub-stream at %lld of length %lld", (long long)total, (long long)start, (long long)(open ? -1 : n));
    if (h.skip(start) != start) fail("harness: skip");
    SubInputStream sub(&h, open ? -1 : n);
    int64_t used = 0;
    if (c.flip()) {
        exerciseHuge(c, sub, n, start, c.flip(), "sub-stream");
        used = sub.position();
    } else {
        int64_t in = (int64_t)c.draw((uint64_t)n + 1), m = (int64_t)c.draw((uint64_t)(n - in) + 1);
        c.note("nested at %lld of length %lld", (long long)in, (long long)m);
        int64_t r = in ? sub.skip(in) : 0;
        REQUIRE(r == in, "skip(%lld) in a window of %lld returned %lld", (long long)in, (long long)n, (long long)r);
        if (sub.status() == Ok) {
            SubInputStream nested(&sub, m);
            exerciseHuge(c, nested, m, start + in, c.flip(), "nested sub-stream");
        }
        used = sub.position();
    }
    REQUIRE(h.position() == start + used, "the parent is at %lld, the window starts at %lld and %lld items of it were passed", (long long)h.position(), (long long)start, (long long)used);
    c.label("several GiB");
    c.nontrivial();
}
static void c04(Choices& c) {
    if (c.chance(1, 25)) { hugeWindow(c); return; }
    static const std::vector<int64_t> edges = { 1, 2, 64, 1024, 4096, 65536 };
    Bytes data = genBytesOfSize(c, genSizeNear(c, edges, c.chance(1, 30) ? 400000 : c.chance(1, 6) ? 20000 : 1200));
    int64_t start = c.draw(3) ? c.size(data.size()) : c.range(0, data.size());
    int64_t avail = data.size() - start;
    int mode = c.weighted({ 5, 2, 2 }); // a window, up to the end, more than there is
    int64_t n = mode == 0 ? (c.draw(3) ? c.range(0, avail) : c.size(avail)) : mode == 1 ? -1 : avail + 1 + c.size(5000);
    if (mode == 2 && c.chance(1, 8)) n = 0x100000000ll + c.draw(100);
    bool seekable;
    auto src = sourceAt(c, data, start, &seekable);
    InputStream* in = src->top();
    c.note("sub-stream at %lld of length %lld", (long long)start, (long long)n);
    {
        SubInputStream sub(in, n);
        if (mode == 2) {
            // never passed off as complete
            int k = (int)c.draw(4);
            for (int i = 0; i < k && sub.status() == Ok; i++) {
                int64_t p = sub.position();
                int64_t s = 1 + c.size(avail + 2);
                int64_t r = sub.skip(s);
                REQUIRE(r <= s, "skip(%lld) returned %lld", (long long)s, (long long)r);
                REQUIRE(sub.status() == Error || (r == s && sub.position() == p + s), "skip(%lld) at %lld returned %lld, status %s", (long long)s, (long long)p, (long long)r, statusName(sub.status()));
                REQUIRE(!(p + s > avail) || sub.status() == Error, "skip(%lld) beyond the parent's end has status %s", (long long)s, statusName(sub.status()));
            }
            if (sub.status() == Ok) {
                int64_t p = sub.position();
                StreamStatus st;
                Bytes got = drain(sub, genPlan(c), &st);
                REQUIRE(st == Error, "the parent ended after %lld of %lld bytes and the sub-stream has status %s", (long long)avail, (long long)n, statusName(st));
                Bytes want = data.substr(start + p);
                requireSame(got, want.substr(0, got.size()), "part of a shortened window");
                if (got.size() > 1) c.nontrivial();
            }
            const char* d;
            int32_t r = sub.read(d, 1, 0);
            REQUIRE(r == -2 && sub.status() == Error, "reading on after the shortened part returned %d, status %s", r, statusName(sub.status()));
            c.label("parent too short");
            return;
        }
        ContractOptions o;
        o.full = seekable;
        o.forward = true;
        o.finish = !c.chance(1, 3);
        o.maxOps = 40;
        Bytes want = n < 0 ? data.substr(start) : data.substr(start, n);
        o.after = [&](int64_t pos) {
            REQUIRE(in->position() == start + pos, "the parent is at %lld, the window starts at %lld and %lld items of it were passed", (long long)in->position(), (long long)start, (long long)pos);
        };
        exercise(c, sub, want, o, "sub-stream");
        start = in->position();
        c.label(n < 0 ? "no length" : n == 0 ? "empty window" : "window");
    }
    if (in->status() == Error) fail("the parent is in error: %s", in->error());
    requireSame(drain(*in, genPlan(c)), data.substr(start), "the rest of the parent");
}
static Register r04({ "C04", c04,
    "random content behind a random source (in memory, file, mapped, chunked, nested window, gzip), a window at a random position of a random length, "
    "of unknown length, or longer than the parent, also windows of windows in a parent of several GiB; driven by random reads, skips and rewinds (also beyond the window) against an array model, with the "
    "parent's position checked after every operation and the parent's rest compared. Non-trivial: an operation ended inside the window and a rewind went "
    "backwards, or data of a shortened window was delivered",
    150000, 2500000, 25, 20, 0 });

// ---- C05 -----------------------------------------------------------------------
// a terminator behind several GiB
static void hugePart(Choices& c) {
    HugeCost cost;
    Bytes term = c.flip() ? Bytes("\n--the boundary of this part--") : Bytes(40, '=');
    HugeStream h(c.flip());
    int64_t before = c.size(3000), n = (1ll << 31) + c.range(0, 6000) - 3000;
    h.fill(before + n);
    bool found = !c.chance(1, 4);
    if (found) { h.add(term); h.fill(c.size(2000)); }
    c.note("a part of %lld at %lld, %s", (long long)n, (long long)before, found ? "terminated" : "up to the end");
    if (before && h.skip(before) != before) fail("harness: skip");
    {
        StringTerminatedSubStream sub(&h, term);
        HugeOptions o;
        o.maxOps = 4;
        o.forward = false;
        exerciseHuge(c, sub, n, before, true, "terminated part", o);
    }
    int64_t want = before + n + (found ? (int64_t)term.size() : 0);
    REQUIRE(h.position() == want, "behind the part the underlying stream is at %lld, not %lld", (long long)h.position(), (long long)want);
    c.label("several GiB");
    c.nontrivial();
}
static void c05(Choices& c) {
    if (c.chance(1, 20000)) { hugePart(c); return; }
    static const std::vector<Bytes> terms = { "\n", "ab", "aab", "abab", "aaaa", "$$$$", "\r\n--bound", "--bound--", "abcabcabd", "a", "\n$$$$\n" };
    Bytes term;
    if (c.flip()) term = c.pick(terms);
    else {
        int n = 1 + (int)c.size(c.chance(1, 10) ? 2000 : 12);
        int alpha = 1 + (int)c.draw(4);
        for (int i = 0; i < n; i++) term += "abXY"[c.draw(alpha)];
        if (c.chance(1, 6)) for (auto& ch : term) ch = (char)(ch + 130);
        if (c.chance(1, 6)) for (auto& ch : term) if (ch == 'a') ch = 0;
    }
    // several parts: pieces of the terminator, other text, and now and then a terminator
    Bytes data;
    int pieces = (int)c.size(30);
    for (int i = 0; i < pieces; i++) {
        switch (c.draw(6)) {
        case 0: data += term.substr(0, 1 + c.draw(term.size())); break;        // partial match
        case 1: data += term.substr(c.draw(term.size())); break;
        case 2: data += genBytes(c, 30); break;
        case 3: for (int k = (int)c.draw(6); k; k--) data += term[c.draw(term.size())]; break;
        case 4: data += genBytes(c, c.chance(1, 20) ? 100000 : 1200); break;
        default: data += term;
        }
    }
    bool seekable;
    int64_t at = c.flip() ? 0 : c.size(data.size());
    auto src = sourceAt(c, data, at, &seekable);
    InputStream* in = src->top();
    c.note("terminator %s", show(term).c_str());
    for (int part = 0; part < 6; part++) {
        size_t e = data.find(term, at);
        bool found = e != Bytes::npos;
        Bytes want = data.substr(at, found ? e - at : Bytes::npos);
        c.note("part %d at %lld: %zu bytes, %s", part, (long long)at, want.size(), found ? "terminated" : "up to the end");
        {
            StringTerminatedSubStream sub(in, term);
            REQUIRE(sub.offset() == at, "offset() is %lld, not %lld", (long long)sub.offset(), (long long)at);
            ContractOptions o;
            o.full = seekable;
            o.forward = true;
            o.maxOps = 25;
            o.finish = !c.chance(1, 5);
            o.after = [&](int64_t pos) {
                REQUIRE(sub.status() != Eof || pos == (int64_t)want.size(), "status Eof at %lld of %zu", (long long)pos, want.size());
                if (sub.status() == Eof) {
                    int64_t p = at + (int64_t)want.size() + (found ? (int64_t)term.size() : 0);
                    REQUIRE(in->position() == p, "at the end of the part the underlying stream is at %lld, not %lld", (long long)in->position(), (long long)p);
                }
            };
            exercise(c, sub, want, o, "terminated part");
            if (!o.finish) {
                Bytes rest = drain(sub, genPlan(c));
                (void)rest;
                REQUIRE(sub.status() == Eof, "status %s at the end", statusName(sub.status()));
                REQUIRE(sub.size() == (int64_t)want.size(), "size %lld at the end of a part of %zu", (long long)sub.size(), want.size());
            }
            if (found) c.label("terminated");
        }
        at = at + want.size() + (found ? term.size() : 0);
        REQUIRE(in->status() != Error, "the underlying stream is in error: %s", in->error());
        REQUIRE(in->position() == at, "behind the part the underlying stream is at %lld, not %lld", (long long)in->position(), (long long)at);
        if (!found) break;
    }
    requireSame(drain(*in, genPlan(c)), data.substr(at), "the rest of the underlying stream");
}
static Register r05({ "C05", c05,
    "content glued from fragments of a random (often self-overlapping) terminator, other bytes and whole terminators, behind a random source; up to six "
    "successive terminated parts are driven by random reads, skips and rewinds against the text up to the first occurrence, with the underlying stream's "
    "position checked at each end; a few parts are of 2 GiB. Non-trivial: an operation ended inside a part and a rewind went backwards",
    250000, 1500000, 25, 20, 0 });
