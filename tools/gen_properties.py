#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json, os
OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe or [], hook_needed=None)))

p("P01", "Muxed EBML primitives are exact: announced size, layout and value",
  "Every EBML element, number, identifier, string, binary, float and date the muxing primitives write occupies exactly the number of bytes the size functions announce beforehand, declares exactly the payload length it has, and decodes back to the value given. A value that does not fit the requested fixed width is refused instead of being truncated.",
  ["inputs"], "every 64-bit value, every float bit pattern, every identifier of legal width, every string/binary up to the stated length, every explicit width 1..8",
  "The unit tests write a few sample values; encodings change at every power of 2^7 and 2^8 and only a quantified check covers all boundaries and both size and content.",
  ["mkvmuxer/mkvmuxerutil.cc", "mkvmuxer/mkvmuxerutil.h"],
  [("size computation", "mkvmuxer/mkvmuxerutil.cc EbmlElementSize/GetCodedUIntSize/GetUIntSize"), ("serialisation", "mkvmuxer/mkvmuxerutil.cc Write*")],
  ["bytes handed to the writer", "announced sizes"])
p("P02", "Seeking demuxer decodes EBML primitives exactly as the format defines",
  "For every byte sequence the seeking demuxer's primitive readers return the identifier, variable-length size, unsigned/signed integer, float or string that the EBML format assigns to those bytes, with the exact encoded length. Truncated or malformed input and reader failures are reported as errors, never as values, and no byte outside the element or the available data is read.",
  ["inputs", "fault_sequences"], "every byte content up to 8+1 bytes, every position, every payload size, every reader failure point",
  "Existing tests decode valid files only; truncated, oversized and failing-reader cases and the width boundaries are not sampled.",
  ["mkvparser/mkvparser.cc", "mkvparser/mkvparser.h"],
  [("primitive readers", "mkvparser/mkvparser.cc ReadUInt/ReadID/GetUIntLength/Unserialize*/ParseElementHeader/Match")],
  ["return values and out parameters"])
p("P03", "Incremental parser decodes EBML primitives exactly as the format defines",
  "For every byte sequence and every way of delivering it in pieces, the incremental parser's element decoders (identifier, size, variable-length integer, signed and unsigned integer, boolean, enumeration, date, float, string and binary) produce the value the EBML format assigns, consume exactly the element's bytes and reject illegal lengths and values. An empty element yields the documented default value.",
  ["inputs", "schedules"], "every content and every legal and illegal element size up to 9 bytes, every split of the delivery",
  "Unit tests sample literal vectors; they cannot cover all bit patterns, all sizes and all partial deliveries together.",
  ["webm_parser/src/var_int_parser.cc", "webm_parser/src/id_parser.cc", "webm_parser/src/size_parser.cc", "webm_parser/src/int_parser.h", "webm_parser/src/float_parser.cc", "webm_parser/src/date_parser.cc", "webm_parser/src/bool_parser.h", "webm_parser/src/byte_parser.h", "webm_parser/src/parser_utils.cc", "webm_parser/src/bit_utils.cc"],
  [("leaf parsers", "webm_parser/src/*_parser.{h,cc} Init/Feed")], ["decoded value, status and bytes consumed"])
p("P04", "Track descriptions survive muxing: every field reads back unchanged",
  "For every accepted video, audio or other track description (identity, names, codec data, delays, geometry, display and stereo fields, colour and mastering metadata, projection, sample rate, channels, content encryption settings) the written track list reads back with exactly the same values and omits what was not set. The declared size of every container element in it equals its actual content.",
  ["inputs", "configurations"], "every combination of optional fields and every field value within the stated string/binary lengths",
  "Tests check single literal configurations; a size or field mix-up depends on value widths and on which optional fields are present together.",
  ["mkvmuxer/mkvmuxer.cc", "mkvparser/mkvparser.cc"],
  [("track writers", "mkvmuxer/mkvmuxer.cc Track/VideoTrack/AudioTrack/Colour/Projection/ContentEncoding::Write"), ("track readers", "mkvparser/mkvparser.cc Tracks::Parse")],
  ["parsed track attributes", "declared vs actual element sizes"])
p("P05", "Segment information, chapters and tags survive muxing unchanged",
  "For every segment information, chapter list and tag set the muxer accepts, the written element reads back with the same titles, application names, time scale, duration, identifiers, times, strings, languages and countries, and its declared sizes equal its actual content. Absent optional fields stay absent.",
  ["inputs", "configurations"], "all field values and combinations within the stated string lengths and entry counts",
  "Tests use one literal set of chapters and tags; container sizes depend on every field width.",
  ["mkvmuxer/mkvmuxer.cc", "mkvparser/mkvparser.cc"],
  [("writers", "mkvmuxer/mkvmuxer.cc SegmentInfo/Chapters/Tags::Write"), ("readers", "mkvparser/mkvparser.cc SegmentInfo/Chapters/Tags::Parse")],
  ["parsed values"])
p("P06", "Every frame accepted by the muxer is stored once, in order, unchanged",
  "After finalisation the file contains, for every track, exactly the frames that were accepted, each once and in the order of acceptance, with the same payload, track, key flag, timestamp (to the time-scale resolution), duration, discard padding and additional data. Frames the muxer refused leave no trace, and a frame offered in order of time is never refused.",
  ["inputs", "histories", "configurations"], "every sequence of up to the stated number of frame additions over two tracks with arbitrary timestamps, flags, sizes and muxer modes",
  "Tests mux a handful of fixed schedules; queuing of audio behind video, cluster splits and deferred duration writing depend on the interleaving of timestamps.",
  ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc"],
  [("frame queue", "mkvmuxer/mkvmuxer.cc Segment::AddGenericFrame/QueueFrame/WriteFramesAll/WriteFramesLessThan"), ("block writers", "mkvmuxer/mkvmuxerutil.cc WriteFrame"), ("deferred duration", "mkvmuxer/mkvmuxer.cc Cluster::QueueOrWriteFrame")],
  ["blocks found by reading the file back"])
p("P07", "Cluster timing stays legal: ordered, in range, split at the configured limits",
  "In every muxed file the timestamps of each track never decrease, every block's offset from its cluster fits the signed 16-bit field and is not negative, cluster timestamps never decrease and, for frames that are not held back (audio of a file with video is), a new cluster begins whenever the configured duration or size limit, a forced start, or (for video) a key frame demands it. A frame that goes back in time in its track is refused and leaves the file unaffected.",
  ["inputs", "histories", "configurations"], "every sequence of up to the stated number of frames with arbitrary timestamps, sizes, limits and time scales",
  "Tests sample monotone schedules with default limits only.",
  ["mkvmuxer/mkvmuxer.cc"],
  [("cluster decision", "mkvmuxer/mkvmuxer.cc Segment::TestFrame/MakeNewCluster/DoNewClusterProcessing"), ("timecode checks", "mkvmuxer/mkvmuxer.cc Cluster::GetRelativeTimecode, Segment::AddGenericFrame")],
  ["cluster and block timecodes in the file"])
p("P08", "Finalised files are structurally exact and every index entry is right",
  "After successful finalisation the declared sizes of header, segment, clusters and index equal their actual extents with nothing left over, every seek-head entry points at an element of the announced kind, and every cue names the time, track, cluster position and block number of the frame it was made for. The stored duration is the caller's if set, else it ends with the frame that starts last (or, when estimation is asked for, covers the mean frame distance beyond it), and a file without frames is not finalised.",
  ["inputs", "histories", "configurations"], "every accepted frame schedule within the bound, every combination of output options (cues on/off, size caps, live or file mode, cluster limits)",
  "Fixed golden files cover one option combination each; positions and sizes depend on every earlier value width.",
  ["mkvmuxer/mkvmuxer.cc"],
  [("back-patching", "mkvmuxer/mkvmuxer.cc Segment::Finalize, SeekHead::Finalize, Cluster::Finalize, SegmentInfo::Finalize"), ("cue creation", "mkvmuxer/mkvmuxer.cc Segment::AddCuePoint, Cues::Write")],
  ["element tree of the output", "seek and cue targets"])
p("P09", "Moving cues to the front preserves the media and fixes every position",
  "Rewriting a finalised file with its index in front of the media copies every cluster byte for byte and leaves all declared sizes exact. Every cue and seek-head entry of the rewritten file points at the moved element it named before.",
  ["inputs", "configurations"], "every muxed file with up to the stated number of cues and clusters and every position width change caused by the move",
  "One golden file exercises one set of position widths; the move shifts positions, which can change the index size, which shifts positions again.",
  ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc"],
  [("relocation fix point", "mkvmuxer/mkvmuxer.cc Segment::MoveCuesBeforeClusters, CopyAndMoveCuesBeforeClusters"), ("copy", "mkvmuxer/mkvmuxerutil.cc ChunkedCopy")],
  ["element tree of the rewritten output"])
p("P10", "Output failures are reported and never corrupt memory",
  "Whenever the output sink fails at any write or seek, the muxing call in progress or a later one (at the latest finalisation) reports failure. No failure schedule makes the muxer touch freed or foreign memory, free anything twice, leak, or hang.",
  ["fault_sequences", "histories", "configurations"], "every position of the first failing output operation and persistent or one-off failure, for muxing histories within the bound",
  "No existing test injects an output failure.",
  ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc"],
  [("error propagation", "mkvmuxer/mkvmuxer.cc all Write/Finalize paths"), ("frame ownership", "mkvmuxer/mkvmuxer.cc Segment and Cluster frame queues")],
  ["return values", "memory accesses"])
p("P11", "Muxer input validation: illegal tracks, frames and settings are refused",
  "The muxer refuses zero or duplicate or out-of-range track numbers, frames without data or for unknown tracks, out-of-range colour, stereo, alpha and projection settings and over-deep or over-long metadata, and a refused call leaves previously accepted state unchanged. Tracks it numbers itself get unique numbers in 1..126 and every identifier it generates is non-zero.",
  ["inputs", "histories"], "every argument value and every sequence of up to the stated number of calls",
  "Tests exercise a few literal bad arguments.",
  ["mkvmuxer/mkvmuxer.cc"],
  [("validation", "mkvmuxer/mkvmuxer.cc Tracks::AddTrack, Frame::Init/IsValid, VideoTrack::SetStereoMode/SetAlphaMode, Colour::Valid, Projection setters")],
  ["return values", "state after a refusal"])
p("P12", "Seeking demuxer is memory-safe and terminates on arbitrary input",
  "For every byte content, reported file length and reader failure, opening, loading and walking a file with the seeking demuxer neither accesses memory out of bounds, uses freed memory, leaks, aborts nor loops forever. It never asks the reader for a negative position or length, and every frame it reports lies in the file and can be read.",
  ["inputs", "fault_sequences"], "every content of files up to the stated number of free bytes after structured prefixes that reach each element parser",
  "The repository's fuzz corpus samples; no test quantifies over all contents.",
  ["mkvparser/mkvparser.cc"],
  [("bounds checks", "mkvparser/mkvparser.cc every Parse method"), ("allocation limits", "mkvparser/mkvparser.cc SafeArrayAlloc")],
  ["memory accesses", "termination"])
p("P13", "Seeking demuxer block decoding: frames tile the block exactly",
  "For every block content the seeking demuxer either rejects the block or reports track, relative time and flags as stored and a list of frames that are non-empty, consecutive, inside the block, and whose sizes are exactly those the block's lacing declares. Every well-formed block is accepted.",
  ["inputs"], "every block of up to the stated number of bytes, all four lacing modes",
  "Tests contain a few literal blocks; lacing size arithmetic has wrap-around and boundary cases.",
  ["mkvparser/mkvparser.cc"],
  [("lacing decode", "mkvparser/mkvparser.cc Block::Parse")], ["frame positions and lengths"])
p("P14", "Seeking demuxer reads metadata exactly and skips what it does not know",
  "For every well-formed EBML header, segment information, track list, chapters, tags, seek head and content encoding, the seeking demuxer reports exactly the stored values with the format's defaults for absent ones, whatever the order of the elements and whatever unknown or padding elements lie between them. Values the format forbids are rejected.",
  ["inputs", "configurations"], "every field value, presence combination, order swap and interleaved unknown element within the bound",
  "Golden files fix order and values.",
  ["mkvparser/mkvparser.cc"],
  [("metadata parsers", "mkvparser/mkvparser.cc EBMLHeader/SegmentInfo/Tracks/Chapters/Tags/SeekHead::Parse")], ["parsed values"])
p("P15", "Seeking demuxer walks every block once, however the data arrives",
  "Walking clusters and blocks visits every block of the file exactly once in file order with the stored timestamps, key flags and durations, whether the file is loaded at once or parsed step by step. When data becomes available only gradually the demuxer asks for more instead of failing, makes progress once it arrives and ends with the same blocks.",
  ["inputs", "schedules", "configurations"], "every file within the bounded shape (cluster and block layout, known and unknown cluster sizes) and every growth schedule of the available data",
  "Tests load complete files; partial availability is not exercised.",
  ["mkvparser/mkvparser.cc"],
  [("cluster walk", "mkvparser/mkvparser.cc Segment::Load/DoLoadCluster/ParseNext/GetNext, Cluster::Parse/GetEntry/GetNext"), ("underflow codes", "mkvparser/mkvparser.cc E_BUFFER_NOT_FULL paths")],
  ["sequence of blocks", "status codes"])
p("P16", "Time lookups in the seeking demuxer return the right entry",
  "For every index and every time the demuxer's cue lookup returns the last cue at or before that time (the first if none) that covers the track, and resolves it to the block the cue names. Cluster and track seeking likewise return the last eligible cluster or (key) block not after the requested time.",
  ["inputs"], "every requested time and all cue and cluster time values within the bounded number of entries",
  "Tests look up a few times in one file.",
  ["mkvparser/mkvparser.cc"],
  [("binary searches", "mkvparser/mkvparser.cc Cues::Find, CuePoint::Find, Segment::FindCluster, Track::Seek, VideoTrack::Seek, Cluster::GetEntry")],
  ["returned entry"])
p("P17", "Incremental parsing result does not depend on how input is delivered",
  "For every input, the incremental parser produces the same events with the same contents and the same final status whether the input is delivered at once or in pieces with arbitrary short reads and would-block pauses. A pause is reported as such, loses nothing and consumes nothing twice.",
  ["inputs", "schedules"], "every content within the structured bound and every pattern of short reads and pauses",
  "Unit tests deliver by one fixed limited-reader pattern.",
  ["webm_parser/src/master_parser.cc", "webm_parser/src/webm_parser.cc", "webm_parser/src/block_parser.cc", "webm_parser/src/virtual_block_parser.cc", "webm_parser/src/element_parser.h"],
  [("resumable state machines", "webm_parser/src/*_parser.* Feed")], ["callback event sequence and status"])
p("P18", "Incremental parser events are well nested with exact element positions",
  "Every container start event is matched by exactly one end event, children are reported inside their parent's extent in document order, and the reported header size, payload size and position of every element equal its place in the stream. An element that would extend past its parent is rejected, and unknown-size containers end exactly where the next element that cannot be their child begins.",
  ["inputs"], "every document within the structured bound, known and unknown container sizes",
  "Tests check a few literal documents.",
  ["webm_parser/src/master_parser.cc", "webm_parser/src/webm_parser.cc", "webm_parser/src/ancestory.cc", "webm_parser/src/segment_parser.cc", "webm_parser/src/cluster_parser.h"],
  [("element framing", "webm_parser/src/master_parser.cc MasterParser::Feed"), ("top level framing", "webm_parser/src/webm_parser.cc DocumentParser::Feed")], ["callback event sequence"])
p("P19", "Incremental parser reports every element's value in the right field",
  "For every document, each element event carries the decoded stored value of every present child in the field that belongs to that child, marks it present, and keeps the documented default and absence mark for every child not stored; repeated children appear in order.",
  ["inputs", "configurations"], "every value and presence combination of the children of each container type within the bound",
  "Per-element tests use literal values and mostly one presence combination.",
  ["webm_parser/src/master_value_parser.h", "webm_parser/src/*_parser.h", "webm_parser/include/webm/dom_types.h"],
  [("child registration tables", "webm_parser/src/*_parser.h constructors"), ("value moves", "webm_parser/src/master_value_parser.h")], ["element structures passed to callbacks"])
p("P20", "Skipping content never disturbs the rest of the incremental parse",
  "Whatever subset of elements the client chooses to skip, the skipped element's content produces no events, the parser consumes exactly its extent, and all events for the rest of the document are identical to those of a full parse.",
  ["inputs", "histories", "schedules"], "every skip decision pattern over every document within the bound",
  "Tests skip single elements in literal documents.",
  ["webm_parser/src/master_parser.cc", "webm_parser/src/skip_parser.cc", "webm_parser/src/block_parser.cc", "webm_parser/src/unknown_parser.cc", "webm_parser/src/void_parser.cc", "webm_parser/src/skip_callback.h"],
  [("skip path", "webm_parser/src/master_parser.cc Action::kSkip handling, skip_parser.cc")], ["callback event sequence"])
p("P21", "Incremental parser block decoding: frames tile the block exactly",
  "For every block, simple block and virtual block content the incremental parser either fails or reports track, time and flags as stored and the frames, in order, with positions and sizes that tile the block payload exactly as its lacing declares. Well-formed blocks are accepted and no frame ever extends outside its block.",
  ["inputs", "schedules"], "every block of up to the stated number of bytes, all four lacing modes",
  "Tests contain a few literal blocks.",
  ["webm_parser/src/block_parser.cc", "webm_parser/src/block_header_parser.cc", "webm_parser/src/virtual_block_parser.cc"],
  [("lacing decode", "webm_parser/src/block_parser.cc")], ["block and frame events"])
p("P22", "Incremental parser is memory-safe, terminates and keeps its verdict",
  "For every byte content, delivery pattern and client reaction (skip, error, partial frame reads), parsing terminates without out-of-bounds access, use of freed memory, abort or leak. Once a parse error has been reported every further attempt reports the same error without touching the input.",
  ["inputs", "schedules", "fault_sequences"], "every content up to the stated number of free bytes after structured prefixes, every reader and callback status",
  "The fuzz target samples; unit tests use literal documents.",
  ["webm_parser/src/webm_parser.cc", "webm_parser/src/master_parser.cc", "webm_parser/src/block_parser.cc"],
  [("bounds and status handling", "webm_parser/src/*")], ["memory accesses", "status"])
p("P23", "Resuming after a seek yields the same events as reading straight through",
  "If the client repositions the input to the start of any element of the document that may be resumed at and tells the parser, parsing produces exactly the events a straight read produces from that element on, within the correct enclosing containers. Pending partial state from before the seek never leaks into the result.",
  ["inputs", "histories"], "every document within the bound, every target element and every point at which the seek happens",
  "Tests seek once to one fixed cluster.",
  ["webm_parser/src/webm_parser.cc", "webm_parser/src/ancestory.cc", "webm_parser/src/segment_parser.cc", "webm_parser/src/master_parser.cc"],
  [("ancestry lookup", "webm_parser/src/ancestory.cc Ancestory::ById"), ("seek init", "webm_parser/src/webm_parser.cc InitAfterSeek")], ["callback event sequence"])
p("P24", "Input sources honour their contract for every request and data length",
  "Every input source delivers the bytes of its data in order without gap or repetition, reports how many bytes it delivered or skipped, keeps its position equal to the number consumed, and signals partial delivery and end of data exactly when they occur, for every sequence of reads and skips. Requests at, across or beyond the end never fail in any other way; only a skip on a seekable file may pass the end, which the next read then reports.",
  ["inputs", "histories", "fault_sequences"], "every data length and every sequence of reads/skips within the bound, every short-read behaviour of the underlying file",
  "Tests sample a few fixed requests.",
  ["webm_parser/src/buffer_reader.cc", "webm_parser/src/file_reader.cc", "mkvparser/mkvreader.cc", "webm_parser/src/callback.cc"],
  [("reader implementations", "webm_parser/src/buffer_reader.cc, file_reader.cc; mkvparser/mkvreader.cc")], ["status, counts, positions"])
p("P25", "VP9 header parsing is bit-exact and never reads past the frame",
  "For every byte sequence, parsing it as a VP9 frame reports exactly the profile, key-frame, alternate-reference, error-resilience, resolution, display size, bit depth, colour space, refresh and tiling values the VP9 bitstream format assigns, or failure for malformed or truncated data. It never reads outside the given bytes.",
  ["inputs"], "every byte content up to the stated length and every length",
  "Tests decode frames of one sample file.",
  ["common/vp9_header_parser.cc", "common/vp9_header_parser.h"],
  [("bit reader and header grammar", "common/vp9_header_parser.cc")], ["accessor values"])
p("P26", "VP9 level estimation follows the published level table",
  "For every sequence of frames, the statistics equal their definition over the frames and the estimated VP9 level is the lowest level of the published table whose maxima for picture size and breadth, luma sample rate (with the grace percentage), average bit rate, compressed picture buffer and column tiles are all respected. It is unknown when no level fits, or when that level's minimum alternate-reference distance, minimum compression ratio or maximum number of reference frames is not met.",
  ["inputs", "histories"], "every bounded sequence of frame headers, sizes and timestamps",
  "Tests compare a few sample files' statistics.",
  ["common/vp9_level_stats.cc", "common/vp9_level_stats.h"],
  [("level table and statistics", "common/vp9_level_stats.cc")], ["estimated level and statistics"])
p("P27", "Superframe index and VPx codec data parsing is exact and bounded",
  "For every byte sequence the superframe splitter returns exactly the frame ranges the index declares, all inside the data, or reports that there is no or a broken index; and the VPx codec-configuration parser reports exactly the well-formed features and refuses malformed ones. HDR metadata copies reproduce exactly the values of the source.",
  ["inputs"], "every content and length within the bound",
  "Tests sample literal vectors.",
  ["common/libwebm_util.cc", "common/hdr_util.cc"],
  [("superframe index", "common/libwebm_util.cc ParseVP9SuperFrameIndex"), ("codec private", "common/hdr_util.cc ParseVpxCodecPrivate, CopyColour")], ["ranges, features, copies"])
p("P28", "Frames survive conversion to PES and back",
  "Every frame converted to PES packets and parsed back yields the identical payload and presentation time (to the 90 kHz clock), however large the frame and whatever its bytes, with every packet's headers well formed and no start code inside escaped data. Parsing consumes exactly one frame at a time.",
  ["inputs", "histories"], "every payload up to the stated length, every timestamp within 33 bits of 90 kHz ticks, sequences of frames",
  "Tests convert one sample file whose payloads do not contain the special byte runs.",
  ["m2ts/webm2pes.cc", "m2ts/vpxpes_parser.cc", "common/libwebm_util.cc"],
  [("packet writer and escaping", "m2ts/webm2pes.cc"), ("packet parser and unescaping", "m2ts/vpxpes_parser.cc"), ("clock conversion", "common/libwebm_util.cc")], ["frame bytes and timestamp"])
p("P29", "PES parsing is safe on arbitrary input",
  "For every byte content offered as a PES stream, parsing packets terminates, never reads outside the data, and returns either a frame that lies within the data or failure.",
  ["inputs"], "every content up to the stated length",
  "Tests parse well-formed streams and truncated literals.",
  ["m2ts/vpxpes_parser.cc"],
  [("bounds checks", "m2ts/vpxpes_parser.cc")], ["memory accesses, results"])
p("P30", "Transport stream packets carry the PES bytes intact",
  "For every PES packet sequence the transport-stream output consists of 188-byte packets with sync byte, correct unit-start flag, stream id and cyclic continuity counter, whose payloads after removing stuffing concatenate to exactly the PES bytes.",
  ["inputs", "histories"], "every PES packet length within the bound and arbitrary bytes",
  "No test checks transport stream output.",
  ["m2ts/vpxpes2ts.cc"],
  [("packetiser", "m2ts/vpxpes2ts.cc VpxPes2Ts::ReceivePacket")], ["bytes written to the output file"])
p("P31", "WebVTT parsing accepts exactly the grammar and preserves cue content",
  "For every text without NUL bytes the WebVTT parser recognises the header (optional UTF-8 byte-order mark, WEBVTT, optional blank plus text, blank line) exactly, and then returns the cues in order with exactly the stored identifier, start and stop times (SS, MM:SS or HH:MM:SS, with one to three fraction digits scaled by position), name:value settings and payload lines (at least one), for LF, CR and CRLF line ends; every well-formed cue is accepted, the end of the stream and malformed input are told apart, and bytes FE/FF are refused. Time arithmetic, comparison and conversion from and to milliseconds agree with milliseconds (negative results become 0), and no input, read errors and NUL bytes included, causes an out-of-bounds access or passes for an end of stream.",
  ["inputs"], "every text up to the stated length within structured templates, every time value",
  "No test covers the WebVTT parser.",
  ["webvtt/webvttparser.cc", "webvtt/webvttparser.h"],
  [("line reader, timing and settings parser", "webvtt/webvttparser.cc")], ["parsed cues"])
with open(OUT, "w") as f:
    for x in P:
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
