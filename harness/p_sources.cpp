// C01: in-memory and file sources deliver exactly their bytes
#include "huge.h"
#include <strigi/fileinputstream.h>
#include "../lib/skippingfileinputstream2.h"
#include <fcntl.h>
#include <unistd.h>
using namespace Strigi;
using namespace pbt;

// a sparse file beyond 2 and 4 GiB: positions, sizes and skips are 64-bit
static void hugeFile(Choices& c) {
    static const std::vector<int64_t> marks = { 0x7fffffff, 0x80000000ll, 0xffffffffll, 0x100000000ll, 0x100000400ll, 0x180000000ll };
    int64_t size = c.pick(marks) + c.range(0, 5000);
    std::map<int64_t, Bytes> patches;
    std::string f = scratchDir() + "/huge." + std::to_string(getpid());
    int fd = open(f.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
    if (fd < 0 || ftruncate(fd, size) != 0) { close(fd); unlink(f.c_str()); discard(); }
    int np = 1 + (int)c.draw(3);
    std::vector<int64_t> spots;
    spots.push_back(0);
    spots.push_back(size);
    for (int i = 0; i < np; i++) {
        int64_t at = std::min(size - 1, c.pick(marks) - c.range(0, 2000));
        Bytes b = genBytes(c, 3000);
        if ((int64_t)b.size() > size - at) b.resize(size - at);
        if (pwrite(fd, b.data(), b.size(), at) != (ssize_t)b.size()) { close(fd); unlink(f.c_str()); discard(); }
        spots.push_back(at);
    }
    bool mapped = c.flip();
    std::unique_ptr<InputStream> s(FileInputStream::open(f.c_str(), mapped ? FileInputStream::MMap : FileInputStream::Automatic));
    unlink(f.c_str());
    struct Closer { int fd; ~Closer() { close(fd); } } closer = { fd };
    c.note("sparse %s file of %lld bytes", mapped ? "mapped" : "unbuffered", (long long)size);
    c.label("beyond 2 GiB");
    c.nontrivial();
    REQUIRE(s->size() == size || s->size() == -1, "size() is %lld, not %lld", (long long)s->size(), (long long)size);
    int64_t pos = 0;
    for (int i = 0; i < 12; i++) {
        int64_t to = std::max<int64_t>(0, std::min(size, c.pick(spots) + c.range(-10, 3000)));
        int64_t r;
        if (to >= pos && c.flip()) {
            r = s->skip(to - pos);
            c.note("  skip(%lld) = %lld", (long long)(to - pos), (long long)r);
            REQUIRE(r == to - pos, "skip(%lld) at %lld of %lld returned %lld", (long long)(to - pos), (long long)pos, (long long)size, (long long)r);
        } else {
            r = s->reset(to);
            c.note("  reset(%lld) = %lld", (long long)to, (long long)r);
            REQUIRE(r == to, "reset(%lld) of %lld returned %lld", (long long)to, (long long)size, (long long)r);
        }
        pos = to;
        REQUIRE(s->position() == pos, "position() is %lld, not %lld", (long long)s->position(), (long long)pos);
        int32_t n = 1 + (int32_t)c.size(3000);
        const char* d;
        int32_t got = s->read(d, n, n);
        int64_t want = std::min<int64_t>(n, size - pos);
        REQUIRE(got == want || (want == 0 && got == -1), "read(%d,%d) at %lld of %lld returned %d", n, n, (long long)pos, (long long)size, got);
        Bytes ref((size_t)want, 0);
        if (pread(fd, &ref[0], want, pos) != want) discard();
        if (want) requireSame(Bytes(d, want), ref, "data beyond 2 GiB");
        pos += want;
        REQUIRE(s->position() == pos, "position() is %lld, not %lld", (long long)s->position(), (long long)pos);
        if (pos < size) REQUIRE(s->status() == Ok, "status %s at %lld of %lld", statusName(s->status()), (long long)pos, (long long)size);
    }
}

// a buffered stream of several GiB: user-written, or a file
static void hugeBuffered(Choices& c) {
    HugeCost cost;
    int64_t size = (c.flip() ? 1ll << 31 : 1ll << 32) + c.range(0, 6000) - 3000;
    bool known = c.flip();
    c.note("buffered stream of %lld%s", (long long)size, known ? ", known" : "");
    HugeFill s(size, known);
    HugeOptions o;
    o.full = false;
    exerciseHuge(c, s, size, 0, true, "buffered stream", o);
    c.label("beyond 2 GiB, buffered");
    c.nontrivial();
}

// files that say they are empty and are not (as in /proc), and pipes
static void oddFile(Choices& c) {
    Bytes data;
    ContractOptions o;
    o.maxOps = 30;
    std::unique_ptr<InputStream> s;
    if (c.chance(1, 3)) {
        data = genBytesOfSize(c, c.size(60000)); // what a pipe holds
        int p[2];
        REQUIRE(pipe(p) == 0, "harness: no pipe");
        if (data.size() && write(p[1], data.data(), data.size()) != (ssize_t)data.size()) discard();
        close(p[1]);
        FILE* end = fdopen(p[0], "rb");
        int bs = 1 + (int)c.size(5000);
        if (c.chance(1, 3)) s.reset(new SkippingFileInputStream2(end, "pipe", bs));
        else s.reset(new FileInputStream(end, "pipe", bs));
        c.note("pipe of %zu bytes", data.size());
        c.label("pipe");
        o.full = false;
        exercise(c, *s, data, o, "buffered pipe");
        return;
    }
    static const std::vector<std::string> files = { "/proc/self/cmdline", "/proc/version", "/proc/filesystems", "/proc/devices" };
    std::string f = c.pick(files);
    int fd = open(f.c_str(), O_RDONLY);
    if (fd < 0) discard();
    char b[4096];
    ssize_t n;
    while ((n = read(fd, b, sizeof b)) > 0) data.append(b, (size_t)n);
    close(fd);
    if (data.empty()) discard();
    bool buffered = c.flip();
    o.full = !buffered;
    if (buffered && c.chance(1, 3)) s.reset(new SkippingFileInputStream2(f.c_str(), 1 + (int)c.size(5000)));
    else s.reset(FileInputStream::open(f.c_str(), buffered ? FileInputStream::Buffered : FileInputStream::Unbuffered, 1 + (int)c.size(5000)));
    c.note("%s, %zu bytes, %sbuffered", f.c_str(), data.size(), buffered ? "" : "un");
    c.label("file that seems empty");
    exercise(c, *s, data, o, "file that seems empty");
}

static void c01(Choices& c) {
    if (c.chance(1, 60)) { hugeFile(c); return; }
    if (c.chance(1, 60)) { oddFile(c); return; }
    if (c.chance(1, 3000)) { hugeBuffered(c); return; }
    static const std::vector<int64_t> edges = { 1, 2, 1023, 1024, 1025, 2048, 4096, 8192, 65536 };
    int kind = (int)c.draw(9);
    if (kind == 8) { // a source that cannot be opened is in error from the start and stays so
        std::string path = scratchDir() + "/missing/file";
        int h = (int)c.draw(4);
        if (c.flip()) path = scratchDir();          // a directory
        std::unique_ptr<InputStream> s(c.chance(1, 4) ? (InputStream*)new SkippingFileInputStream2(h == 3 ? 0 : path.c_str()) : h == 3 ? new FileInputStream((const char*)0)
            : FileInputStream::open(path.c_str(), h == 0 ? FileInputStream::Buffered : h == 1 ? FileInputStream::MMap : FileInputStream::Automatic));
        c.note("opening %s, hint %d", path.c_str(), h);
        int k = 1 + (int)c.draw(4);
        const char* d;
        for (int i = 0; i < k; i++) {
            if (i && c.chance(1, 3)) s->skip(1 + c.draw(10)); // must not make it readable
            int32_t n = s->read(d, 1, 0);
            REQUIRE(n == -2, "read from an unreadable file returned %d", n);
            REQUIRE(s->status() == Error, "an unreadable file has status %s", statusName(s->status()));
        }
        c.label("unreadable");
        return;
    }
    int64_t max = c.chance(1, 40) ? 1300000 : c.chance(1, 8) ? 70000 : 3000;
    Bytes data = genBytesOfSize(c, genSizeNear(c, edges, max));
    if (max > 1000000) { // around the default buffer size of a buffered file
        static const std::vector<int64_t> big = { 1048576, 1048577 };
        if (c.flip()) data = genBytesOfSize(c, genSizeNear(c, big, 1300000));
    }
    ContractOptions o;
    o.maxOps = 50;
    c.note("%zu bytes", data.size());
    switch (kind) {
    case 0: {
        bool copy = c.flip();
        c.note("StringInputStream copy=%d", copy);
        std::unique_ptr<char[]> raw(new char[data.size()]);
        memcpy(raw.get(), data.data(), data.size());
        StringInputStream s(raw.get(), (int32_t)data.size(), copy);
        if (copy) memset(raw.get(), '!', data.size());   // the copy must not depend on the original
        exercise(c, s, data, o, "string stream");
        c.label("string");
        break; }
    case 1: { // zero-terminated
        for (auto& ch : data) if (!ch) ch = '0';
        bool copy = c.flip();
        StringInputStream s(data.c_str(), -1, copy);
        exercise(c, s, data, o, "string stream of a zero-terminated string");
        c.label("string, length by terminator");
        break; }
    case 2: {
        std::wstring w;
        for (size_t i = 0; i < data.size(); i++) w += (wchar_t)((unsigned char)data[i] * 257 + 1);
        StringReader s(w.data(), (int32_t)w.size(), c.flip());
        exercise(c, s, w, o, "string reader");
        c.label("wide string");
        break; }
    case 3: case 4: case 5: case 6: {
        std::string f = writeScratchFile(data);
        std::unique_ptr<InputStream> s;
        const char* what;
        if (kind == 3 && c.chance(1, 3)) {
            int bs = c.flip() ? 1 + (int)c.size(1 << 16) : 1048576;
            c.note("buffer size %d", bs);
            what = "skipping file";
            if (bs == 1048576) s.reset(new SkippingFileInputStream2(f.c_str()));
            else if (c.flip()) s.reset(new SkippingFileInputStream2(f.c_str(), bs));
            else s.reset(new SkippingFileInputStream2(fopen(f.c_str(), "rb"), f.c_str(), bs));
            o.full = false;
        } else if (kind == 3) {
            int bs = c.flip() ? 1 + (int)c.size(1 << 16) : 1048576;
            c.note("buffered file, buffer size %d", bs);
            what = "buffered file";
            if (bs == 1048576 && c.flip()) s.reset(new FileInputStream(f.c_str()));
            else if (c.flip()) s.reset(new FileInputStream(f.c_str(), bs));
            else s.reset(FileInputStream::open(f.c_str(), FileInputStream::Buffered, bs));
            o.full = false;
        } else if (kind == 4) {
            what = "buffered file of a FILE";
            s.reset(new FileInputStream(fopen(f.c_str(), "rb"), f.c_str(), 1 + (int)c.size(5000)));
            o.full = false;
        } else if (kind == 5) {
            what = "unbuffered file";
            s.reset(FileInputStream::open(f.c_str(), c.flip() ? FileInputStream::Automatic : FileInputStream::Unbuffered));
        } else {
            what = "mapped file";
            s.reset(FileInputStream::open(f.c_str(), FileInputStream::MMap));
        }
        c.note("%s", what);
        c.label(what);
        unlink(f.c_str());
        exercise(c, *s, data, o, what);
        break; }
    default: { // a buffered stream that a user wrote by implementing fillBuffer
        Delivery d = genDelivery(c);
        FillStream s(data, d);
        o.full = false;
        c.label("user-written buffered stream");
        if (c.chance(1, 4)) s.atLeast((int32_t)c.size(5000));
        o.maxOps = 25;
        for (int i = (int)c.draw(3); i > 0; i--) { // the object is used for several data, as OLE streams are
            if (c.flip()) exercise(c, s, data, o, "user-written buffered stream");
            else { const char* p; s.read(p, 1 + (int32_t)c.size(300), 0); s.read(p, 1, 1 + (int32_t)c.size(300)); }
            data = genBytesOfSize(c, genSizeNear(c, edges, 3000));
            s.again(data, genDelivery(c));
            if (c.chance(1, 4)) s.atLeast((int32_t)c.size(5000));
            c.note("again with %zu bytes", data.size());
            c.label("buffer used again");
        }
        exercise(c, s, data, o, "user-written buffered stream");
    }
    }
}
static Register r01({ "C01", c01,
    "random content (size biased to buffer boundaries) served by an in-memory, wide-character, buffered-file, unbuffered-file, mapped-file or "
    "user-written buffered stream, driven by a random sequence of read/skip/reset; every return value, byte, position, status and size is "
    "compared with an array model. Non-trivial: at least two items, an operation ended inside the data, and a rewind went backwards",
    120000, 2500000, 25, 20, 0 });
