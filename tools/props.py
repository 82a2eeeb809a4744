#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [], "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": observe or [], "hook_needed": None}})
I = "include/strigi/"
L = "lib/"
p("C01", "In-memory and file sources deliver exactly their bytes",
  "A stream over a string, a wide string or a file (buffered with any buffer size, unbuffered, or memory-mapped, of any length including beyond 4 GiB) delivers exactly the source's items for every sequence of reads, skips and rewinds. Each read returns at least the requested minimum unless the end is reached and never more than the maximum (no limit if the maximum is below the minimum), a skip passes exactly min(n, remaining) items, and the position always equals the number of items passed. A file that cannot be read is in the error state and every read of it reports an error.",
  ["inputs", "histories"], "all contents and sizes, all buffer sizes, all sequences of read/skip/reset",
  "The tests read a handful of fixed files with a few request sizes; boundary alignments of size, buffer, request and rewind are unbounded.",
  [I+"stringstream.h", I+"bufferedstream.h", I+"streambuffer.h", L+"fileinputstream.cpp", L+"skippingfileinputstream.cpp", L+"mmapfileinputstream.cpp"],
  [("buffer window arithmetic", "StreamBuffer::makeSpace/read, BufferedStream::read/reset/skip"), ("file positioning", "SkippingFileInputStream::read/reset, MMapFileInputStream::read/skip/reset")],
  ["read/skip/reset return values", "position(), size(), status()"])
p("C02", "Rewinding into the last read always works and keeps its data valid",
  "For every kind of stream the library provides, including decoders, converters, sub-streams and archive entries, rewinding to any position within the segment returned by the latest read succeeds, leaves that segment's data pointer valid and unchanged, and makes the stream deliver the same items again from there. This holds however often it is repeated, whatever the request sizes, and also at the end of the stream.",
  ["inputs", "histories"], "all stream kinds, contents, request sizes and interleavings of reads with rewinds into the last segment",
  "Tests rewind to a few positions in a few streams; the guarantee depends on how request, buffer and rewind boundaries line up.",
  [I+"streambase.h", I+"bufferedstream.h", I+"streambuffer.h", L+"subinputstream.cpp", L+"stringterminatedsubstream.cpp", L+"dataeventinputstream.cpp"],
  [("buffer window", "BufferedStream::reset, StreamBuffer::makeSpace"), ("delegated rewinds", "SubInputStream::reset, StringTerminatedSubStream::reset, DataEventInputStream::reset")],
  ["reset return value", "bytes behind the last pointer", "subsequent reads"])
p("C03", "End of stream is reported exactly when all was delivered, with its size",
  "For every kind of stream, the end-of-stream status appears only when every item has been delivered (or skipped), always appears once a read finds nothing more, and then persists until a rewind; reads at the end deliver nothing and report no error. The size is known at the end and equals the number of items, and any size reported earlier is that same number.",
  ["inputs", "histories"], "all stream kinds, contents (including empty) and sequences of reads, skips and rewinds",
  "Tests check the status after reading a few fixtures to the end; early, late, lost or doubled end signals depend on alignments of content and requests.",
  [I+"streambase.h", I+"bufferedstream.h", I+"stringstream.h", L+"subinputstream.cpp", L+"stringterminatedsubstream.cpp", L+"skippingfileinputstream.cpp"],
  [("end detection", "BufferedStream::read (finishedWritingToBuffer), SubInputStream::read, StringTerminatedSubStream::read"), ("size bookkeeping", "m_size in every stream")],
  ["status()", "size()", "read return values"])
p("C04", "A sub-stream never leaves its window",
  "A stream limited to a length-n part of another stream delivers exactly the items at the parent's positions [start, start+n), never an item before or after them, for every sequence of reads, skips and rewinds, however the parent delivers its data, and leaves the parent positioned right behind the items consumed. If the parent ends early it reports an error rather than a shortened part; with no length given it delivers everything up to the parent's end.",
  ["inputs", "histories"], "all parent streams, offsets, lengths (0, unknown, beyond the parent's end), nested windows, and operation sequences",
  "Tests use one fixed offset and length; containment depends on every combination of request, rewind and window edge.",
  [L+"subinputstream.cpp", I+"subinputstream.h"],
  [("request clamping", "SubInputStream::read/skip/reset"), ("premature end", "SubInputStream::read")],
  ["bytes read", "parent position", "status()"])
p("C05", "A terminated part ends at the first terminator, however data arrives",
  "A stream over a part that ends at a terminator string delivers exactly the items before the terminator's first occurrence, regardless of how the underlying stream chunks its data, of the request sizes, and of terminators that straddle chunks or overlap partial matches; then it is at its end and the underlying stream is positioned right behind the terminator. Without a terminator it delivers everything up to the end, and rewinding into what was read does not change what is delivered.",
  ["inputs", "histories"], "all contents, terminators (1 byte and up, self-overlapping), chunkings and read/rewind sequences",
  "Tests use one text and one terminator in a single chunk.",
  [L+"stringterminatedsubstream.cpp", L+"kmpsearcher.cpp"],
  [("look-ahead by terminator length", "StringTerminatedSubStream::read"), ("search", "KmpSearcher::search")],
  ["bytes read", "underlying position()", "status(), size()"])
p("C06", "Substring search finds the first occurrence and nothing else",
  "For every haystack and every query (including repetitive, self-overlapping, one-byte, empty and binary ones) the searcher returns the position of the first occurrence of the query, or nothing when there is none. It never reads outside the given range, and a searcher can be reused with other queries and haystacks without any influence of earlier ones.",
  ["inputs", "histories"], "all pairs of query and haystack, all sequences of setting queries and searching",
  "Tests search a few English words.",
  [L+"kmpsearcher.cpp", I+"kmpsearcher.h"],
  [("shift tables", "KmpSearcher::Private::initSkipTable/initSuffixTable"), ("search", "KmpSearcher::search")],
  ["returned pointer/position"])
p("C07", "Data events report each byte exactly once, in order, with one end event",
  "The event stream hands its listener every byte of the underlying data exactly once and in order, no matter which reads, skips and rewinds its user makes or how the data arrives, and passes the unchanged bytes on to its user. When the data has been consumed to its end the listener is told so exactly once, after the last byte.",
  ["inputs", "histories"], "all contents, chunkings and sequences of read/skip/reset on the event stream",
  "Tests count events for fixed read patterns.",
  [L+"dataeventinputstream.cpp", I+"dataeventinputstream.h"],
  [("high-water mark", "DataEventInputStream::read/checkEnd"), ("skip by reading", "DataEventInputStream::skip")],
  ["handler callbacks"])
p("C08", "Deflate-family decompression restores the data and stops at its end",
  "Decompressing any valid gzip, zlib or raw deflate stream (any level, strategy, window, header fields) yields exactly the original data, independent of how compressed data arrives and of request sizes, and afterwards the underlying stream is positioned at the first byte behind the compressed data. Compressing data with the library's compressing stream yields a valid compressed stream of exactly that data.",
  ["inputs", "histories"], "all contents, encoder parameters, chunkings, trailing bytes and request sizes",
  "Tests decompress two or three fixture files.",
  [L+"gzipinputstream.cpp", L+"gzipcompressstream.cpp"],
  [("inflate loop and unread of surplus input", "GZipInputStream::fillBuffer"), ("deflate loop", "GZipCompressInputStream::fillBuffer")],
  ["bytes read", "underlying position()", "status()"])
p("C09", "Bzip2 decompression restores the data and stops at its end",
  "Decompressing any valid bzip2 stream (any block size, number of blocks, content) yields exactly the original data, independent of how compressed data arrives and of request sizes, and afterwards the underlying stream is positioned at the first byte behind the compressed data. Data without the bzip2 signature is rejected with an error and can be handed over and released safely.",
  ["inputs", "histories"], "all contents, block sizes, chunkings, trailing bytes and request sizes",
  "Tests decompress two fixture files.",
  [L+"bz2inputstream.cpp"], [("decompress loop and unread of surplus input", "BZ2InputStream::fillBuffer"), ("signature check", "BZ2InputStream::checkHeader")],
  ["bytes read", "underlying position()", "status()"])
p("C10", "LZMA decompression restores the data",
  "Decompressing any valid LZMA-alone stream the header check accepts (any mix of literals, matches, repeated matches and distances; known size or end marker) yields exactly the original data, independent of how compressed data arrives and of request sizes. Data with an unsupported header is rejected with an error.",
  ["inputs", "histories"], "all packet sequences, dictionary sizes, size fields, chunkings and request sizes",
  "Tests decompress one fixture file.",
  [L+"lzmainputstream.cpp", L+"lzma/LzmaDec.c"], [("range decoder", "LzmaDec_DecodeToBuf"), ("size accounting", "LZMAInputStream::Private::fillBuffer")],
  ["bytes read", "status()"])
p("C11", "Damaged or cut compressed data never passes as clean",
  "If compressed data (gzip, zlib, raw deflate, bzip2, LZMA) is truncated anywhere before its end, or damaged in a way its own checksums or structure reveal, reading it ends in the error state; a clean end is reported only together with exactly the original data (for damaged raw deflate and LZMA data, which carry no checksum: only when a reference decoder accepts it, with exactly that decoder's output). Whatever was delivered before the error is a prefix of the original data when the data was merely truncated.",
  ["inputs", "fault_sequences"], "all valid compressed streams, every truncation point, every small damage, every chunking",
  "Tests contain no damaged compressed data.",
  [L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp"],
  [("error mapping", "GZipInputStream::fillBuffer, BZ2InputStream::fillBuffer, LZMAInputStream::Private::fillBuffer"), ("unexpected end", "readFromStream")],
  ["status()", "bytes read"])
p("C12", "Base64 decoding inverts base64 encoding",
  "Decoding the base64 encoding of any data, with line breaks or other non-alphabet characters anywhere between the characters and with or without one or two padding characters as the length demands, yields exactly that data through the decoding stream, for every chunking and request size; the one-shot decode function does the same for encodings without interspersed characters.",
  ["inputs", "histories"], "all data, line lengths and interspersed characters, chunkings and request sizes",
  "Tests decode a handful of fixed strings.",
  [L+"base64inputstream.cpp"], [("quartet state carried across chunks", "Base64InputStream::fillBuffer/moreData"), ("one-shot decode", "Base64InputStream::decode")],
  ["bytes read"])
p("C13", "Character set decoding equals whole-text conversion",
  "Reading text in any supported character set through the encoding converter (to UTF-8) or the reader (to wide characters) yields exactly the characters of the text converted as a whole, independent of how bytes arrive, of multi-byte characters that straddle chunks, and of request sizes; rewinding into the last read gives the same characters. Text that is invalid in its character set, or ends inside a character, ends in an error, and everything delivered before it is a prefix of the characters before the invalid place; an unknown character set is an error.",
  ["inputs", "histories"], "all texts, character sets, chunkings, request sizes, invalid and cut sequences",
  "Tests convert one short text in one encoding.",
  [L+"encodinginputstream.cpp", L+"inputstreamreader.cpp"],
  [("incomplete sequence carry-over", "EncodingInputStream::fillBuffer, InputStreamReader::decode/fillBuffer"), ("output space handling", "E2BIG branches")],
  ["characters read", "status()"])
p("C14", "Text and number helpers agree with their definitions",
  "UTF-8 validation accepts exactly well-formed UTF-8 of characters that XML allows (no overlong forms, surrogates, values above U+10FFFF, U+FFFE or U+FFFF, and no control characters except tab, line feed and carriage return), and the variant that reports an incomplete tail does so exactly for a proper prefix of a character; reading 2-, 4- and 8-byte little- and big-endian integers at any alignment returns the encoded value. No helper reads outside the range it is given.",
  ["inputs"], "all byte strings and all integer values",
  "Tests cover a few strings and values.",
  [L+"textutils.cpp", I+"textutils.h"], [("utf-8 state machine", "checkUtf8"), ("byte assembly", "readLittleEndian*/readBigEndian*")],
  ["return values"])
p("C15", "Tar archives yield every entry with its name, size, time and bytes",
  "Iterating a tar archive (old, ustar or GNU, with long names, directories, links and files of any size an octal field can hold) yields exactly its members in order, each with its full name, type, size, modification time and exact content, and then a clean end.",
  ["inputs"], "all archives an independent writer produces: member counts, names up to and beyond 100 characters, sizes around block boundaries, trailers",
  "Tests read two fixture archives and compare entry counts.",
  [L+"tarinputstream.cpp"], [("header parsing", "TarInputStream::Private::parseHeader"), ("block rounding", "TarInputStream::nextEntry")],
  ["entryInfo()", "entry streams", "status()"])
p("C16", "Zip archives yield every entry with its name, size, time and bytes",
  "Iterating a zip archive of stored and deflated members, with sizes in the local header or in data descriptors, extra fields, comments and a central directory, yields exactly its members in order, each with its name, type, size when known, modification time and exact content, and then a clean end.",
  ["inputs"], "all archives an independent writer produces: methods, sizes including 0, flags, extra fields, descriptors with and without signature, names, dates",
  "Tests read two fixture archives and compare entry counts.",
  [L+"zipinputstream.cpp", L+"dostime.cpp", L+"gzipinputstream.cpp"], [("local header parsing", "ZipInputStream::Private::readHeader"), ("data descriptor search", "ZipInputStream::Private::skipToNextHeader"), ("date decoding", "dos2unixtime")],
  ["entryInfo()", "entry streams", "status()"])
p("C17", "Ar archives yield every member with its name, size, time and bytes",
  "Iterating an ar archive, with short names, GNU or System V style names, a GNU long-name table, BSD style names in front of the data, and symbol tables, yields exactly its ordinary members in order with their names, sizes, modification times and exact content, odd-sized members included, and then a clean end.",
  ["inputs"], "all archives an independent writer produces",
  "Tests read two fixture archives and compare entry counts.",
  [L+"arinputstream.cpp"], [("header parsing and name table", "ArInputStream::Private::readHeader"), ("even alignment", "ArInputStream::nextEntry")],
  ["entryInfo()", "entry streams", "status()"])
p("C18", "Cpio archives yield every entry with its name, size, time and bytes",
  "Iterating a new-ASCII cpio archive yields exactly its members before the trailer, in order, each with its name, size, modification time and exact content, for every alignment of name and content, and then a clean end.",
  ["inputs"], "all archives an independent writer produces: name lengths and sizes modulo 4, ./ prefixes, types, times",
  "Tests read one fixture archive and compare the entry count.",
  [L+"cpioinputstream.cpp"], [("hex header parsing", "CpioInputStream::Private::readHeader/readHexField"), ("padding", "CpioInputStream::nextEntry")],
  ["entryInfo()", "entry streams", "status()"])
p("C19", "Rpm packages yield every payload entry",
  "Iterating an rpm package with any lead, signature and header sizes and a gzip- or bzip2-compressed cpio payload yields exactly the payload's entries in order with names, sizes and exact content, and then a clean end.",
  ["inputs"], "all packages an independent writer produces",
  "Tests read one fixture package.",
  [L+"rpminputstream.cpp", L+"cpioinputstream.cpp"], [("header walk and alignment", "RpmInputStream::RpmInputStream"), ("payload detection", "RpmInputStream::RpmInputStream")],
  ["entryInfo()", "entry streams"])
p("C20", "Mail messages yield their headers and every part decoded",
  "For every well-formed mail message, plain or multipart (nested to any depth, with quoted or bare boundaries, LF or CRLF lines), iteration yields each leaf part in order with its declared name and with its content, decoded if it is base64 in a multipart message or passed on unchanged (up to the boundary line) otherwise; Content-Type is reported as written, Subject and the other headers unfolded, with encoded words decoded to UTF-8.",
  ["inputs"], "all messages an independent writer produces: part trees, boundaries, encodings, header folding, line ends",
  "Tests read a few fixture mails and compare entry counts.",
  [L+"mailinputstream.cpp", L+"stringterminatedsubstream.cpp", L+"base64inputstream.cpp"], [("header scanning and unfolding", "MailInputStream::Private::readHeader/handleHeaderLine"), ("boundary stack", "MailInputStream::Private::handleBodyLine/getBoundary"), ("encoded words", "DecodedMimeValue")],
  ["entryInfo()", "entry streams", "subject(), contentType(), ..."])
p("C21", "SD files yield every molecule with its exact text",
  "Iterating an SD file yields its molecules in order, each containing exactly the text from its first non-empty line up to its delimiter, for every molecule size and however the data arrives, and then a clean end.",
  ["inputs"], "all sequences of molecule texts, sizes around the scan window, chunkings",
  "Tests count the molecules of one fixture.",
  [L+"sdfinputstream.cpp"], [("delimiter scan", "SdfInputStream::nextEntry"), ("type check", "SdfInputStream::checkHeader")],
  ["entry names", "entry streams"])
p("C22", "OLE documents yield every stream with its exact bytes",
  "Iterating an OLE2 compound document yields every non-empty stream of its directory with its name, size and exact content, for every layout of big and small blocks over the file, fragmented chains included, and then a clean end. (A document of more than 10 MB is read only from a source that tells its size, and refused from others.)",
  ["inputs"], "all documents an independent writer produces: stream counts, sizes around the small-stream cutoff and block sizes, shuffled chains",
  "Tests read three fixture documents and compare entry counts.",
  [L+"oleinputstream.cpp"], [("block chains", "OleEntryStream::fillBuffer, OleInputStream::Private::nextBlock/readEntryTable")],
  ["entryInfo()", "entry streams"])
p("C23", "Entries are the same however much of each one is consumed",
  "For every archive format, the sequence of entries (names, types, sizes, times) and the content of each entry that is read do not depend on whether, how far, or in what pieces the previous entries were read, skipped or rewound before moving on.",
  ["inputs", "histories"], "all archives of every format, all per-entry consumption patterns",
  "Tests either read all of every entry or none.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"rpminputstream.cpp", L+"mailinputstream.cpp", L+"sdfinputstream.cpp", L+"oleinputstream.cpp"],
  [("skipping the rest of an entry", "SubStreamProvider::nextEntry implementations")],
  ["entryInfo()", "entry streams"])
p("C24", "Results depend only on the bytes, not on how they are delivered",
  "Decoding or iterating the same bytes gives the same entries, contents and final status whatever stream supplies them: in memory, from a file, mapped, decompressed, as a window of a larger stream, or in pieces of any size, with known or unknown size; and so does what the archive reader lists and opens below a file. (For damaged compressed data the error may come earlier or later, or go unnoticed behind the last byte that was needed.)",
  ["inputs", "schedules"], "all formats, all inputs (valid, truncated and mutated) and all delivery schedules",
  "Tests feed each format from one kind of stream.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"rpminputstream.cpp", L+"mailinputstream.cpp", L+"oleinputstream.cpp", L+"sdfinputstream.cpp", I+"bufferedstream.h", L+"listinginprogress.cpp"],
  [("minimum request sizes", "every read(begin, min, max) call in the parsers")],
  ["entries, contents, status"])
p("C25", "Archive paths open the named member and nothing else",
  "Opening a path through the archive reader, at any depth of nested and compressed archives, returns a stream with exactly the bytes of the member that path names; a path that names no file yields nothing, in particular a name that is a prefix or an extension of a member's name, a directory, or a path below a plain file.",
  ["inputs"], "all trees of nested archives (tar, zip, ar, cpio, gz, bz2 ...) and all existing and non-existing paths",
  "Tests open a few paths in fixture archives.",
  [L+"archivereader.cpp", L+"filestreamopener.cpp"], [("path descent", "ArchiveReaderPrivate::getPositionedProvider/getSubEntry"), ("decompression of nested streams", "subStreamProvider")],
  ["openStream()"])
p("C26", "Archive listings name every member exactly once; stat agrees",
  "Listing an archive or one of its directories through the archive reader names each direct member exactly once with its type, size and time, for every interleaving of several listers, copies and assignments of listers, stats and opens, complete or abandoned, and in repeated listings. Stat of a path succeeds exactly for members and agrees with the listing.",
  ["inputs", "histories"], "all archive trees and all interleavings of dirEntries/nextEntry/copy/assign/stat/openStream/destroy",
  "Tests list fixture archives with one lister at a time.",
  [L+"archivereader.cpp", L+"listinginprogress.cpp", L+"archiveentrycache.cpp"], [("shared listing in progress", "ListingInProgress::nextEntry, DirLister"), ("entry tree", "ArchiveEntryCache/SubEntry")],
  ["DirLister::nextEntry", "stat", "isArchive"])
p("C27", "No input can crash, corrupt memory in, or hang any parser",
  "Whatever bytes are given to any decoder, format detector, archive iterator, the mail and text helpers or the archive reader, and however they are then read, rewound and closed, the library only accesses memory it owns, trips no internal assertion, throws nothing, and finishes in time and space bounded by the input. Requests are those the interface allows (no negative skip, rewind or minimum; no rewind before the latest read); after an error only safety is demanded.",
  ["inputs", "histories"], "all byte strings, in particular damaged versions of valid files of every format, with all usage patterns",
  "Tests feed well-formed fixtures only.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"rpminputstream.cpp", L+"mailinputstream.cpp", L+"oleinputstream.cpp", L+"sdfinputstream.cpp", L+"lzmainputstream.cpp", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp"],
  [("header validation", "every parser")], ["sanitizers, assertions, CPU and memory limits"])
p("C28", "A failing source is reported as an error, never as a clean end",
  "If the underlying stream fails at any point while a decoder, converter, sub-stream or archive iterator is using it, the failure surfaces: the entry or stream being read, or the iteration, ends in the error state and never in a clean end with part of the data missing (for an archive entry that fails: the entry or the iteration). Everything delivered before the failure is correct, and closing everything afterwards is safe.",
  ["fault_sequences", "inputs"], "all stream and archive kinds, all inputs, a failure at every position of the source",
  "Tests never make the source fail.",
  [L+"subinputstream.cpp", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp", L+"base64inputstream.cpp", L+"encodinginputstream.cpp", L+"inputstreamreader.cpp", L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp"],
  [("error propagation", "checks of nread < -1 / input->status() in every stream")], ["status()", "nextEntry()"])
p("C29", "A truncated archive never passes off a shortened entry as complete",
  "If an archive is cut anywhere, every entry still listed that is read to a clean end has exactly its original bytes, entries come in the original order with their original names, and an entry that was cut ends in the error state. A cut inside an entry's header, its data or the zip descriptor behind its data makes the iteration end in error rather than cleanly (for OLE documents, whose blocks may lie in any order, when the cut entry is read).",
  ["inputs", "fault_sequences"], "all archives of the length-delimited formats (tar, zip, ar, cpio, rpm, OLE) and every cut point",
  "Tests contain no truncated archives.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"subinputstream.cpp", L+"oleinputstream.cpp"],
  [("premature end detection", "SubInputStream::read/skip and the header readers")], ["entry contents and status", "nextEntry(), status()"])
p("C30", "A process stream is the command's output on the complete input",
  "Reading a process stream yields exactly what the command writes when it is given the complete input stream on its standard input, for inputs and outputs of any size, commands that read everything, something or nothing of their input or exit early, and any delivery of the input; then comes a clean end. Destroying the stream at any moment ends and reaps the command without affecting any other process.",
  ["inputs", "schedules"], "all inputs, commands (filters, sources, sinks, early exits), output sizes beyond pipe capacity, read patterns and moments of destruction",
  "Tests run one command with a small input.",
  [L+"processinputstream.cpp"], [("pipe pumping", "ProcessInputStream::fillBuffer/writeToPipe"), ("child control", "ProcessInputStream::~ProcessInputStream")],
  ["bytes read", "child processes"])
p("C31", "Format detection accepts its own format and rejects others",
  "Every format's header check accepts the beginning of every archive or stream of that format that the library can read and rejects the signatures of the other formats, damaged signatures and too short data, and a provider chosen by content iterates exactly that archive. Inspecting a header never changes what is subsequently read from the stream. (Mail has no signature: its check accepts printable 7-bit beginnings that look like header lines, so it alone may accept text that is something else.)",
  ["inputs"], "all valid beginnings of every format, all prefixes, all cross pairs of formats",
  "Tests check a few fixtures.",
  [L+"substreamproviderprovider.cpp", L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"rpminputstream.cpp", L+"bz2inputstream.cpp", L+"gzipinputstream.cpp", L+"oleinputstream.cpp", L+"mailinputstream.cpp"],
  [("checkHeader of each format", "lib/*inputstream.cpp"), ("selection", "SubStreamProviderProvider::subStreamProvider")], ["checkHeader()", "subStreamProvider()"])
p("C32", "Stacked streams compose",
  "Feeding any decoder, converter, window, event stream or archive entry into another, to any depth, delivers exactly the composition of what they do one by one, and independent streams used alternately do not influence each other. After a stream is destroyed the stream below it remains usable from its current position.",
  ["inputs", "histories"], "all stacks of decoders and containers over generated data, all interleavings of independent stacks",
  "Tests stack at most two streams on fixtures.",
  [I+"streambase.h", I+"bufferedstream.h", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"subinputstream.cpp", L+"tarinputstream.cpp", L+"zipinputstream.cpp"],
  [("read contract between layers", "read/reset of every stream")], ["bytes read"])
p("C33", "Closing gives back everything that was taken",
  "Destroying streams, archive iterators, archive readers and listers, at any moment (before, during or after reading, with entries half read, with listings abandoned, after an error of the data or of the source), gives back all memory, file descriptors and file mappings they took: doing the same thing again and again does not use more and more of them.",
  ["inputs", "histories", "fault_sequences"], "all inputs, valid, damaged or failing, all uses and all moments of destruction",
  "Tests destroy everything in one order after complete use, and do not look at memory or descriptors.",
  [L+"archivereader.cpp", L+"substreamprovider.cpp", L+"mmapfileinputstream.cpp", L+"skippingfileinputstream.cpp", L+"fileinputstream.cpp", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp", L+"zipinputstream.cpp", L+"mailinputstream.cpp", L+"rpminputstream.cpp"],
  [("destructors and early exits", "every stream's destructor and error branch"), ("ownership of nested streams", "StreamPtr, ArchiveReaderPrivate::positionedProvider/open")],
  ["live heap blocks", "open descriptors", "mapped files"])
p("C34", "A damaged member header is an error, never the end of the archive",
  "If the header of a member (or of the archive) cannot be what the format prescribes - a wrong signature (zip, cpio, ar, rpm header sections, OLE), a size or time that does not start with a digit (tar, ar) or contains other characters (cpio), a missing field terminator (tar), an empty name (cpio, tar), a name outside of the name table (ar), negative section sizes (rpm) - all members before it are delivered as they are, that member is not, and the iteration ends in error, not cleanly, and stays so.",
  ["inputs", "fault_sequences"], "all archives of the formats with recognizable headers, every member, every such damage and all uses of the members before it",
  "Tests contain no damaged headers behind the first one.",
  [L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"rpminputstream.cpp", L+"oleinputstream.cpp"],
  [("header validation", "TarInputStream::checkHeader/readOctalField, ZipInputStream::readHeader, ArInputStream::readEntryHeader, CpioInputStream::readHeader/readHexField, RpmInputStream and OleInputStream constructors")],
  ["nextEntry(), status()", "contents of earlier entries"])
p("C35", "Independent objects may be used by several threads at the same time",
  "Threads that each use streams, archive iterators and archive readers of their own (over data of their own, also when they do the same thing, and also as the first use of the library in the process) do not influence each other: every thread gets exactly the entries, bytes, sizes, times, statuses and error messages that it gets when it is the only one. No memory is shared between independent objects in a way that is a data race.",
  ["inputs", "schedules"], "all combinations of streams, formats and helpers in different threads, all inputs (valid and damaged) and all schedules",
  "Tests use one thread; a race strikes in few schedules, and set-up at first use is done once per process.",
  [L+"base64inputstream.cpp", L+"dostime.cpp", L+"lzmainputstream.cpp", L+"mailinputstream.cpp", L+"archivereader.cpp", L+"processinputstream.cpp"],
  [("tables set up at first use", "initialize() of base64"), ("conversions with shared results", "dos2unixtime"), ("descriptors of child processes", "createPipe")],
  ["everything delivered", "error()"])
p("C36", "Listings, stat and opening follow archives that change",
  "When the file of an archive is replaced by another one (with another modification time, earlier or later, or another size), removed, or put back, then every listing, stat and open begun afterwards through the same archive reader gives exactly what the present file holds, at any depth and whatever was listed, cached or being listed before. Listings and streams begun before the change go on giving exactly what the archive held when they were begun.",
  ["inputs", "histories"], "all histories of changes to the files, interleaved with listings, stats and opens, over all trees of archives",
  "Tests never change a file while a reader is in use; what is stale depends on what was cached, in progress or finished at that moment.",
  [L+"archivereader.cpp", L+"listinginprogress.cpp", L+"archiveentrycache.cpp"],
  [("validity of the cache", "localStat"), ("listings in progress", "findListingInProgress")],
  ["entries of listings", "results of stat and openStream"])
p("C37", "An error is always told in full, and only an error",
  "A stream, archive iterator, converter or reader whose status is Error has a nonempty error() text, and one whose status is Ok or Eof has none. A read gives -2 (or less) exactly in the status Error and -1 only at Eof; a skip that is stopped by an error gives less than asked for. When what fails is the stream below, its own error text is part of the text above it, through every layer. An unknown character set is named in the text, and so is the path of a file that cannot be read. Once reached, the end or the error and its text stay the same when asked again.",
  ["inputs", "faults"], "all inputs (intact, damaged, truncated, of another format), all positions at which the stream below fails, all stacks of streams, all sequences of requests",
  "Tests look at one or two broken files; there are hundreds of places at which a failure may be noticed, each with its own text, and each layer must hand on the text of the layer below.",
  [L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp", L+"tarinputstream.cpp", L+"zipinputstream.cpp", L+"cpioinputstream.cpp", L+"arinputstream.cpp", L+"rpminputstream.cpp", L+"oleinputstream.cpp", "include/strigi/streambase.h"],
  [("status and error text", "m_error"), ("reading through a buffer", "BufferedStream<T>::read")],
  ["status() and error() after every operation", "return values of read, skip and nextEntry"])
p("C38", "Results depend on nothing but the input",
  "What decoding, iterating over archives of any format, reading archives inside archives, converting character sets, compressing, searching, running commands and reading files give - entries, names, bytes, sizes, statuses, error texts - is a function of the input and the calls alone. It does not depend on what fresh memory or the stack contain, on the C or C++ locale, the time zone (except for the local times that zip records), the current directory, environment variables, the umask, which descriptors are taken or free, which signals are ignored or blocked, errno, or other work done before in the same process.",
  ["inputs", "histories"], "all inputs (intact and damaged), all uses, all states of the surrounding process",
  "Tests run each piece of work once, in one process state; a value that is not initialised is nearly always zero there, and the locale is the C locale.",
  [L+"mailinputstream.cpp", L+"lzmainputstream.cpp", L+"sdfinputstream.cpp", L+"tarinputstream.cpp", L+"oleinputstream.cpp", L+"rpminputstream.cpp", L+"archivereader.cpp", L+"processinputstream.cpp", "include/strigi/entryinfo.h"],
  [("initialisation of members and of entry infos", "constructors, EntryInfo"), ("numbers put into names and texts", "std::ostringstream")],
  ["entries, bytes, sizes, times, status() and error() of the same work done twice"])
p("C39", "Long streams are worked through with little memory, and once",
  "Working through a stream (decoding, sub-streams, conversion, compression, commands, events, archives with huge members or with thousands of members, read, skipped or left half read) takes an amount of memory that is bounded by a constant plus a few times the largest request, however long the data is and however many members there are; never asks the source for more at once than that; and has the source deliver everything about once (at most twice, plus a few pieces per member), so that the work grows with the length and not with its square. (OLE documents, whose blocks may lie in any order, are held as a whole.)",
  ["inputs", "histories"], "all lengths of data, all numbers of members, all sequences of requests and skips, all sizes of the pieces in which the source delivers",
  "Tests use files of a few kB, in which everything fits into the first buffer.",
  ["include/strigi/streambuffer.h", "include/strigi/bufferedstream.h", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"lzmainputstream.cpp", L+"zipinputstream.cpp", L+"tarinputstream.cpp", L+"arinputstream.cpp", L+"cpioinputstream.cpp", L+"mailinputstream.cpp", L+"sdfinputstream.cpp", L+"subinputstream.cpp", L+"stringterminatedsubstream.cpp"],
  [("size of buffers", "StreamBuffer<T>::makeSpace, setSize"), ("requests handed on", "SubInputStream::read, BufferedStream<T>::read"), ("buffers of input", "MailInputStream, SdfInputStream, StringTerminatedSubStream")],
  ["memory in use", "size of the requests to the source", "amount delivered by the source"])
p("C40", "What a reader does not support is refused, not misread",
  "A reader that meets a valid form of its format which it does not read (a zip member that is encrypted, of a method other than stored and deflated, stored with its sizes behind it, or with zip64 sizes; a tar number in binary; another variant of cpio; an OLE document with other sizes of blocks; a thin ar archive; an rpm payload of another compression; a gzip, zlib or bzip2 stream of another method, version, window or with unknown flags or a preset dictionary) gives the members before it as they are, never reads anything that is not the member's real content to a clean end, and ends the iteration cleanly only if every member was given; otherwise the stream, the iteration or the opening by path ends in an error.",
  ["inputs"], "all archives and streams an independent writer produces, with any member in any such form, over any source, read or skipped",
  "The tests have no file in a form that the library does not read.",
  [L+"zipinputstream.cpp", L+"tarinputstream.cpp", L+"cpioinputstream.cpp", L+"oleinputstream.cpp", L+"arinputstream.cpp", L+"rpminputstream.cpp", L+"gzipinputstream.cpp", L+"bz2inputstream.cpp", L+"archivereader.cpp"],
  [("flags and methods", "ZipInputStream::readHeader, nextEntry"), ("block sizes", "OleInputStream::Private::Private"), ("kind of payload", "RpmInputStream::RpmInputStream"), ("header of the stream", "GZipInputStream::Private::checkMagic, BZ2InputStream::checkHeader")],
  ["status and error of the stream and of the provider", "bytes delivered"])
p("C41", "Reading leaves everything else as it was",
  "Reading - decoding, iterating over archives, reading by path, searching, converting, checking headers, running commands, of whole, damaged or missing data, in whole or in part - changes nothing but the objects that are used. The memory given to the library is never written to (it may be memory that can only be read), the files and directories that are read keep content, times and mode, none appears or vanishes, and nothing is written to the standard output. Afterwards the process has the signal actions and mask, pending signals, directory, umask, locale, environment, rounding mode, limits, timers, standard descriptors, children and threads that it had before.",
  ["inputs", "histories"], "all inputs (intact, damaged, missing), all uses, all states of the surrounding process",
  "Tests look at what is delivered, in one process state and on data that may be written to, and not at what is left behind.",
  [L+"processinputstream.cpp", L+"fileinputstream.cpp", L+"mmapfileinputstream.cpp", L+"kmpsearcher.cpp", L+"dostime.cpp", L+"sdfinputstream.cpp", L+"mailinputstream.cpp", L+"base64inputstream.cpp", L+"encodinginputstream.cpp"],
  [("signals and children", "writeNoSignal, ~ProcessInputStream"), ("local times", "dos2unixtime"), ("opening of files", "FileInputStream, MMapFileInputStream"), ("data looked at in place", "KmpSearcher::search, checkHeader")],
  ["the memory and files given to the library", "state of the process before and after", "standard output"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, q["title"]
        f.write(json.dumps(q) + "\n")
