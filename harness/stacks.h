// Stacks of streams: layers of windows, decoders, converters, event streams
// and archive entries over a source, each with the content it must deliver.
#ifndef VERIF_STACKS_H
#define VERIF_STACKS_H
#include "formats.h"

struct Level {
    std::string what;
    Strigi::InputStream* s = nullptr;
    Bytes content;                    // what s delivers, from position 0
    std::vector<std::function<void()> > cleanup; // in the order to be run
};
struct Stack {
    std::unique_ptr<Source> src;
    std::vector<Level> levels;        // levels[0] is the source
    Strigi::InputStream* top() const { return levels.back().s; }
    const Bytes& content() const { return levels.back().content; }
    std::string describe() const;
    void pop();                       // destroys the topmost level
    ~Stack() { while (!levels.empty()) pop(); }
};
enum Layer { LCodec, LWindow, LTail, LTerminated, LEvents, LCharset, LEntry, LCompress, LayerCount };
// how the bottom is made: given the bytes it must serve
typedef std::function<std::unique_ptr<Source>(const Bytes&)> MakeSource;
// a stack of up to depth layers whose top delivers content; may change content a little if a layer needs that
// (the result's content() tells).  Returns false if a layer already failed to come up (with a failing source).
std::unique_ptr<Stack> buildStack(Choices& c, Bytes content, int depth, const MakeSource& make, bool mayFail = false);
#endif
