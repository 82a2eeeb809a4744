// Independent writers for every format the library reads: each generates a
// document from Choices and says what reading it must yield.
#ifndef VERIF_FORMATS_H
#define VERIF_FORMATS_H
#include "common.h"
#include <strigi/substreamprovider.h>

enum Kind { Tar, Zip, Ar, Cpio, Rpm, Mail, Sdf, Ole, KindCount };
const char* kindName(int kind);

struct Entry {
    std::string name;
    Strigi::EntryInfo::Type type = Strigi::EntryInfo::File;
    int64_t size = -1;      // as entryInfo() must report it; -2: not checked, -3: that of the content or unknown
    int64_t mtime = -1;     // -1: not checked
    Bytes content;
    bool checkType = true;
    bool checkName = true;
    int64_t dataStart = -1, dataEnd = -1; // where its data lies in the archive, when contiguous
    int64_t headerStart = -1;             // where its own header starts, when it has one
    int64_t descriptorEnd = -1;           // where what belongs to it behind its data ends, when there is something
};
struct Archive {
    int kind = 0;
    Bytes bytes;
    std::vector<Entry> entries;
    std::vector<std::string> notes;
    std::vector<std::pair<std::string, std::string> > headers; // of a mail
    bool singleMail = false;
    int64_t endOfEntries = -1; // offset behind the last entry's data and padding
};
struct GenOpts {
    int maxEntries = 6;
    int64_t maxSize = 3000;
    bool multipartOnly = false;
    bool plain = false;      // simple names, no oddities (for nesting)
    int oleShift = 9, oleMiniShift = 6; // the logarithms of the sizes of the blocks
    bool oleHuge = false; // now and then a document of 15 MB
    uint32_t oleCutoff = 4096;          // shorter streams are in small blocks
};
// a random archive of a kind
Archive genArchive(Choices& c, int kind, const GenOpts& o);
// an archive of given files and directories (names and contents are given)
Archive writeArchive(Choices& c, int kind, std::vector<Entry> entries, bool plain);
Strigi::SubStreamProvider* makeProvider(int kind, Strigi::InputStream* in);
bool headerAccepts(int kind, const char* data, int32_t size);
void noteArchive(Choices& c, const Archive& a);

// ---- single-stream encodings -------------------------------------------------
enum Codec { CGzip, CZlib, CRaw, CBz2, CLzma, CBase64, CodecCount };
const char* codecName(int codec);
struct Encoded {
    int codec = 0;
    Bytes plain, bytes;
    std::string desc;
    bool knownSize = false; // LZMA: the header gives the size
};
Encoded encode(Choices& c, int codec, const Bytes& plain);
Encoded genLzma(Choices& c, int64_t maxSize);   // content chosen by random packets
Encoded genEncoded(Choices& c, int codec, int64_t maxSize);
Strigi::InputStream* makeDecoder(int codec, Strigi::InputStream* in);
Bytes lzmaEncode(const Bytes& data, uint32_t dicSize, bool knownSize, bool endMark, Choices* c);
Bytes base64Of(const Bytes& data);
// several GiB of patterned content, encoded; plain is empty
struct HugeEncoded : Encoded {
    int64_t size = 0;
    char (*at)(int64_t pos) = nullptr; // the content
};
HugeEncoded hugeEncoded(Choices& c, int codec);

uint32_t crc32Of(const Bytes& b);

// reads every entry completely (with the plan) and compares
void checkIteration(Choices& c, Strigi::SubStreamProvider& p, const Archive& a, const ReadPlan& plan);
void checkEntryInfo(const Strigi::EntryInfo& got, const Entry& want, size_t index, const char* kind);
std::string stdstr(int64_t v);
#endif
