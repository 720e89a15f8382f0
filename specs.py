MUX = ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvmuxer/mkvwriter.cc"]
PARSER = ["mkvparser/mkvparser.cc"]
PROPS = {}

PROPS["P01"] = {
    "bounds": "identifier: every legal 1-4 byte EBML ID; value: every 64-bit integer / every 32-bit float pattern; widths -1..10; "
              "string/binary payload lengths {0,1,2,5,126,127,128,129}, every byte value; void sizes 0..140 and >= 2^56",
    "outside": "string/binary payloads of other lengths; void elements of 141..2^56-1 bytes",
    "units": [
        {"name": "vint", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 0}, "w": 2, "reach": ["vint", "too-big", "bad-width", "auto-width", "fixed-width", "fixed-too-small"]},
        {"name": "uint", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 1}, "w": 2, "reach": ["refused", "written"]},
        {"name": "sint", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 2}, "w": 2, "reach": ["date", "signed"]},
        {"name": "misc", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 3}, "w": 2, "reach": ["float", "master", "id", "serialize", "null"]},
        {"name": "blob", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 4, "LEN_CHOICES": 8}, "w": 2, "thorough": {"defs": {"LEN_CHOICES": 17}}, "reach": ["string", "binary"]},
        {"name": "void", "harness": ["p01_ebml.cc"], "srcs": MUX, "defs": {"MODE": 5, "VOID_MAX": 140}, "w": 2, "thorough": {"defs": {"VOID_MAX": 400}}, "reach": ["void", "void-refused"]},
    ],
}

PROPS["P02"] = {
    "bounds": "16 symbolic data bytes, read position 0..2, 0..10 bytes available, file length known or unknown, element sizes -1..9 "
              "(strings also any other 64-bit size), refusal code -1 or 1, at most one failing read (any position 0..8, any non-zero code)",
    "outside": "more than one failing read; positions close to 2^63",
    "units": [dict(name=n, harness=["p02_prims.cc"], srcs=PARSER, defs={"MODE": i}, w=2, reach=re) for i, (n, re) in enumerate([
        ("readuint", ["uint", "uint-error", "length"]), ("readid", ["id", "id-error"]), ("unsigned", ["value", "error"]),
        ("signed", ["value", "error"]), ("float", ["value", "error"]), ("string", ["string", "string-error"]),
        ("header", ["header", "header-error"]), ("match", ["match-buf", "match-val"])])],
}

_p13 = ["rejected"]
PROPS["P13"] = {
    "bounds": {"quick": "block payloads of 0..10 symbolic bytes (every header, lacing type and lacing content), up to 13 bytes per lacing type; 24 block sizes (EBML lacing: 6) from 259 bytes to 2^56 with up to 3 frames and up to 6 free lacing bytes",
               "thorough": "block payloads of 0..12 symbolic bytes, up to 18 bytes per lacing type; the large block sizes with up to 4 frames and 9 free lacing bytes"},
    "outside": "other block lengths; more than ~13 laced frames; blocks at file positions near 2^63",
    "units": [
        dict(name="any", harness=["p13_block.cc"], srcs=PARSER, defs={"SZMIN": 0, "SZMAX": 9}, w=8, thorough={"defs": {"SZMAX": 12}}, reach=["rejected", "unlaced", "xiph", "fixed", "ebml"]),
        dict(name="xiph", harness=["p13_block.cc"], srcs=PARSER, defs={"SZMIN": 10, "SZMAX": 13, "LACING": 1}, w=4, thorough={"defs": {"SZMAX": 18}}, reach=["xiph"]),
        dict(name="fixed", harness=["p13_block.cc"], srcs=PARSER, defs={"SZMIN": 10, "SZMAX": 20, "LACING": 2}, w=4, thorough={"defs": {"SZMAX": 40}}, reach=["fixed"]),
        dict(name="ebml", harness=["p13_block.cc"], srcs=PARSER, defs={"SZMIN": 10, "SZMAX": 12, "LACING": 3}, w=8, thorough={"defs": {"SZMAX": 18}}, reach=["ebml"]),
        dict(name="big-xiph", harness=["p13_block.cc"], srcs=PARSER, defs={"BIG": 5, "NSIZES": 24, "MAXN": 2, "LACING": 1}, w=4, reach=["xiph"], thorough={"defs": {"BIG": 8, "MAXN": 3}}),
        dict(name="big-fixed", harness=["p13_block.cc"], srcs=PARSER, defs={"BIG": 1, "NSIZES": 24, "LACING": 2}, w=4, reach=["fixed"]),
        dict(name="big-ebml", harness=["p13_block.cc"], srcs=PARSER, defs={"BIG": 6, "NSIZES": 6, "MAXN": 2, "LACING": 3}, w=4, reach=["ebml"], thorough={"defs": {"BIG": 9, "NSIZES": 24, "MAXN": 3}}),
    ],
}

WP = ["webm_parser/src/" + f for f in (
    "ancestory.cc bit_utils.cc block_header_parser.cc block_parser.cc buffer_reader.cc callback.cc date_parser.cc "
    "float_parser.cc id_element_parser.cc id_parser.cc master_parser.cc parser_utils.cc segment_parser.cc size_parser.cc "
    "skip_parser.cc unknown_parser.cc var_int_parser.cc virtual_block_parser.cc void_parser.cc webm_parser.cc").split()]
PROPS["P03"] = {
    "bounds": "up to 10 data bytes, every byte value, element sizes 0..9 (and unknown), every default value; up to two interruptions "
              "(short read or would-block) at every position",
    "outside": "strings and binaries longer than 9 bytes, more than two interruptions per element",
    "units": [dict(name=n, harness=["p03_decode.cc"], srcs=WP, defs={"MODE": i, "AVAIL": 9, "REUSE": 1}, w=2, reach=re + (["reused"] if i > 2 else [])) for i, (n, re) in enumerate([
        ("id", ["value", "illegal", "short"]), ("size", ["value", "illegal", "short", "unknown"]), ("varint", ["value", "illegal", "short"]),
        ("uint", ["value", "illegal", "short", "empty"]), ("sint", ["value", "illegal", "short", "empty"]),
        ("bool", ["value", "illegal", "short", "empty", "bad-bool"]), ("enum", ["value", "illegal", "short", "empty"]),
        ("date", ["value", "illegal", "short", "empty"]), ("float", ["value", "illegal", "short", "empty"]),
        ("string", ["value", "illegal", "short", "empty"]), ("binary", ["value", "illegal", "short", "empty"]),
        ("idelem", ["value", "illegal", "short"])])],
}

VP9H = ["common/vp9_header_parser.cc"]
PROPS["P25"] = {
    "bounds": {"quick": "frames of 0..14 arbitrary bytes other than profile-0 key frames; profile-0 key frames narrower than 512 pixels of 0..21 bytes; error-resilient profile-0 key frames of every width (no loop-filter/quantiser deltas); fresh parser or one that parsed a 320x240 key frame before",
               "thorough": "as quick with key frames up to 24 bytes"},
    "outside": "tiling fields of frames with segmentation enabled (the parser documents no value), render size of frames that reuse a reference size",
    "units": [
        dict(name="any", harness=["p25_vp9.cc"], srcs=VP9H, defs={"KIND": 0, "LMIN": 0, "LMAX": 14, "REUSE": 1}, w=4, reach=["ok", "fail", "existing", "same-size", "intra", "key"], thorough={"defs": {"LMAX": 24}}),
        dict(name="tiles", harness=["p25_vp9.cc"], srcs=VP9H, defs={"KIND": 2, "LMIN": 12, "LMAX": 14, "REUSE": 0}, w=4, reach=["ok", "key", "tiles"]),
        dict(name="key", harness=["p25_vp9.cc"], srcs=VP9H, defs={"KIND": 1, "LMIN": 0, "LMAX": 21, "REUSE": 0}, w=4, reach=["ok", "fail", "key", "tiles"], thorough={"defs": {"LMAX": 25}}),
    ],
}

_p26 = dict(harness=["p26_level.cc"], srcs=VP9H + ["common/vp9_level_stats.cc"], w=2)
PROPS["P26"] = {
    "bounds": {"quick": "one frame of every width 1..65536 at 6 heights, and transposed; 2 frames of every size below 32 MB, 6 frames with every pattern of two sizes; up to 4 frames at every spacing up to 4.29 s; "
                        "8 frames with every altref/key pattern; 4 frames with every reference refresh mask; four picture sizes",
               "thorough": "as quick with 3/8, 5, 10 and 5 frames"},
    "outside": "longer streams (the statistics are running maxima over windows of 4 frames / 1 s); streams without a displayed frame; bit-rate comparisons are decided in double arithmetic through exact monotone thresholds",
    "units": [
        dict(_p26, name="dims", defs={"MODE": 0, "FPCHECK": 0}, reach=["level", "unknown"]),
        dict(_p26, name="sizes", defs={"MODE": 1, "FPCHECK": 0, "NF": 2}, reach=["level", "unknown"], thorough={"defs": {"NF": 3}}),
        dict(_p26, name="cpb", defs={"MODE": 1, "FPCHECK": 1, "NF": 6, "PICKS": 1}, reach=["level"], thorough={"defs": {"NF": 8, "PICKS": 2}}),
        dict(_p26, name="times", defs={"MODE": 2, "FPCHECK": 1, "NF": 4}, reach=["level"], thorough={"defs": {"NF": 5}}),
        dict(_p26, name="alt", defs={"MODE": 3, "FPCHECK": 0, "NF": 8, "ALT": 1}, reach=["level", "unknown"], thorough={"defs": {"NF": 10}}),
        dict(_p26, name="refs", defs={"MODE": 3, "FPCHECK": 0, "NF": 4, "ALT": 0}, reach=["level", "unknown"], thorough={"defs": {"NF": 5}}),
    ],
}

_p27 = dict(harness=["p27_index.cc"], srcs=["common/libwebm_util.cc", "common/hdr_util.cc"] + MUX + PARSER, w=4)
PROPS["P27"] = {
    "bounds": {"quick": "superframe data of 1..12 arbitrary bytes; up to 36 bytes for 8-frame/4-byte indexes; codec private data of 0..11 bytes; all colour fields (any 64-bit value; none, any one, any two or all absent) and mastering values (any non-NaN float), all 16 chromaticity presence patterns",
               "thorough": "superframe data of 1..20 bytes, codec private data of 0..14 bytes"},
    "outside": "superframes longer than the bound; NaN mastering values; 1-2 bytes after the last complete codec feature are ignored by the parser and by the oracle",
    "units": [
        dict(_p27, name="superframe", defs={"MODE": 0, "LMIN": 1, "LMAX": 12}, reach=["none", "broken", "ranges"], thorough={"defs": {"LMAX": 20}}),
        dict(_p27, name="superframe-big", defs={"MODE": 0, "LMIN": 33, "LMAX": 36, "MARK": 31}, reach=["broken", "ranges"], thorough={"defs": {"LMAX": 40}}),
        dict(_p27, name="private", defs={"MODE": 1, "LMAX": 11}, reach=["features", "refused"], thorough={"defs": {"LMAX": 14}}),
        dict(_p27, name="colour", defs={"MODE": 2}, reach=["colour", "mastering"]),
    ],
}

FS = ["-include", __import__("os").path.join(__import__("os").path.dirname(__import__("os").path.abspath(__file__)), "harness/symfs.h")]
M2TS = ["m2ts/webm2pes.cc", "m2ts/vpxpes_parser.cc", "common/libwebm_util.cc", "common/video_frame.cc", "mkvparser/mkvreader.cc"] + PARSER
_p28 = dict(harness=["p28_pes.cc", "symfs.cc"], srcs=M2TS, w=2, cflags=FS)
PROPS["P28"] = {
    "bounds": {"quick": "every 33-bit 90 kHz time stamp; frames of 1..5 arbitrary bytes followed by one of 1..2 bytes, VP8 and VP9 (superframes included), 8 presentation times up to 2^33 ticks; "
                        "frames of 32768/32769/32771 bytes with 4 arbitrary bytes across the fragment border or at the end; two-cluster files with video and audio in every order, track numbers 1..3",
               "thorough": "as quick with frames of 1..7 bytes, 6 arbitrary border bytes, frames of 32767 and 65540 bytes"},
    "outside": "nanosecond values other than the listed ones (double arithmetic of the clock conversion), arbitrary bytes in frames above 7 bytes away from the border and end; the stdio layer and GetFileSize are replaced by an in-memory file",
    "units": [
        dict(_p28, name="pts", defs={"MODE": 0}, reach=["frame"]),
        dict(_p28, name="payload", defs={"MODE": 1, "FMAX": 5, "NSN": 7}, w=4, reach=["frame", "superframe", "refused"], thorough={"defs": {"FMAX": 7}}),
        dict(_p28, name="fragments", defs={"MODE": 2, "LN": 2, "EDGE": 4, "NOSCAN": 1}, w=4, reach=["frame", "fragmented"], alloc_cap=1000000, max_inst=400000000, thorough={"defs": {"LN": 4, "EDGE": 6}}),
        dict(_p28, name="file", defs={"MODE": 3}, reach=["frame", "file", "sink"]),
    ],
}

_p29 = dict(harness=["p29_pesparse.cc", "symfs.cc"], srcs=["m2ts/vpxpes_parser.cc", "common/libwebm_util.cc", "common/video_frame.cc"], w=3, cflags=FS)
PROPS["P29"] = {
    "bounds": {"quick": "0..9 arbitrary bytes; one packet with 0..3 bytes before it and arbitrary stream id, time stamp, stuffing, frame length and payload, cut off at each of its last 30 bytes; "
                        "two packets or fragments with right packet lengths, 8 wrong ones in 0..31 or a huge one, and 10 frame lengths in 0..31, 2^16 and 2^32-1, arbitrary payloads, cut off within the last 2 bytes",
               "thorough": "as quick with 0..11 free bytes and larger payloads"},
    "outside": "streams with more than two packets; the stdio layer is replaced by an in-memory file",
    "units": [
        dict(_p29, name="free", defs={"MODE": 0, "NMAX": 9}, reach=["empty", "failure"], thorough={"defs": {"NMAX": 11}}),
        dict(_p29, name="two", defs={"MODE": 1, "PACKETS": 2, "PL": 2, "CUT": 1}, reach=["failure", "frame", "second"], thorough={"defs": {"PL": 3, "CUT": 4}}),
        dict(_p29, name="one", defs={"MODE": 2, "PACKETS": 1, "PL": 2, "CUT": 29}, reach=["failure", "frame"], thorough={"defs": {"PL": 3}}),
    ],
}

_p30 = dict(harness=["p30_ts.cc", "symfs.cc"], srcs=["m2ts/vpxpes2ts.cc", "common/libwebm_util.cc", "common/video_frame.cc", "mkvparser/mkvreader.cc"] + PARSER, w=4, cflags=FS)
PROPS["P30"] = {
    "bounds": {"quick": "one or two PES packets of 1, 2, 181..185, 366..369 and 3128 bytes in every combination (three for lengths up to 184): every byte free up to 185 bytes, above that the bytes at the ends and TS packet borders; one failing write at each of the first three",
               "thorough": "three packets"},
    "outside": "other packet lengths; a PES buffer holding several PES packets is treated as one unit; the WebM reading stage (P28) and stdio are replaced by harness stand-ins",
    "units": [
        dict(_p30, name="packets", defs={"NPK": 2, "LN": 11, "FREE": 185}, reach=["ok", "stuffed", "write-failed"], thorough={"defs": {"NPK": 3}}),
        dict(_p30, name="three", defs={"NPK": 3, "LN": 5, "FREE": 4}, reach=["ok", "stuffed"]),
    ],
}

_p24 = dict(harness=["p24_readers.cc", "symfs.cc"], srcs=WP + ["webm_parser/src/file_reader.cc", "mkvparser/mkvreader.cc"], w=4, cflags=FS)
PROPS["P24"] = {
    "bounds": {"quick": "0..4 data bytes of any value; three operations, each a read of 1..5 or skip of 1..5, 1500, 2^63-1 or 2^64-1 bytes; regular files and pipes with one short read at any position; random-access reads at any 64-bit offset, lengths -1..5",
               "thorough": "four operations on 0..5 bytes"},
    "outside": "IstreamReader (the C++ stream library is not encoded); read errors other than end of file; the C library's stdio is replaced by an in-memory file",
    "units": [
        dict(_p24, name="buffer", defs={"MODE": 0, "NMAX": 4, "OPS": 3}, reach=["complete", "partial", "eof"], thorough={"defs": {"NMAX": 5, "OPS": 4}}),
        dict(_p24, name="file", defs={"MODE": 1, "NMAX": 4, "OPS": 3}, reach=["complete", "partial", "eof", "pipe", "file", "seek-skip"], thorough={"defs": {"OPS": 4}}),
        dict(_p24, name="mkv", defs={"MODE": 2, "NMAX": 4, "OPS": 2}, reach=["range", "refused"], thorough={"defs": {"OPS": 3}}),
        dict(_p24, name="longskip", defs={"MODE": 4, "NMAX": 4, "OPS": 3}, reach=["done"]),
        dict(_p24, name="default-skip", defs={"MODE": 3, "NMAX": 6, "OPS": 3}, reach=["complete", "eof"], thorough={"defs": {"NMAX": 9}}),
    ],
}

_p31 = dict(harness=["p31_vtt.cc"], srcs=["webvtt/webvttparser.cc"], w=2)
PROPS["P31"] = {
    "bounds": {"quick": "every text of the shapes [0..2 free bytes][BOM?]4..6 letters of WEBVTT + 0..4 free bytes; header + 1..5 free bytes before '-->1'; 1..5 free bytes after '0-->'; 1..6 free setting bytes; 0..2 free bytes + '1-->2' + 0..3 free bytes + optional second cue; [H{0..3}:]MM:SS[.f{0..4}] with free digits; times with every 32-bit hour count for comparison; ms -> time for windows of 2^16 around nine points up to 2^53; read errors at every position",
               "thorough": "6 free bytes before/after the arrow, 8 free setting bytes, 3+4 free bytes around a timings line, windows of 2^20"},
    "outside": "longer lines (the 10000 byte cap), more than four cues, texts outside these shapes; bytes 0 only in the safety unit; NOTE/REGION/STYLE blocks are not supported by this parser and are reported as malformed",
    "units": [
        dict(_p31, name="start", defs={"MODE": 0, "A": 4, "B": 0}, reach=["no-header", "end"]),
        dict(_p31, name="time", defs={"MODE": 1, "A": 5, "B": 0}, thorough={"defs": {"A": 6}}, reach=["cue", "malformed"]),
        dict(_p31, name="stop", defs={"MODE": 2, "A": 5, "B": 0}, thorough={"defs": {"A": 6}}, reach=["cue", "malformed"]),
        dict(_p31, name="settings", defs={"MODE": 3, "A": 6, "B": 0}, thorough={"defs": {"A": 8}}, reach=["cue", "malformed", "setting"]),
        dict(_p31, name="lines", defs={"MODE": 4, "A": 2, "B": 3}, thorough={"defs": {"A": 3, "B": 4}}, reach=["cue", "malformed", "second-cue"]),
        dict(_p31, name="long", defs={"MODE": 5, "A": 3, "B": 4}, reach=["cue", "malformed"]),
        dict(_p31, name="compare", defs={"MODE": 6}, reach=["time"]),
        dict(_p31, name="from-ms", defs={"MODE": 7, "A": 16}, thorough={"defs": {"A": 20}}, reach=["time"]),
        dict(_p31, name="arith", defs={"MODE": 8, "A": 8}, reach=["time"]),
        dict(_p31, name="safety", defs={"MODE": 9, "A": 2, "B": 4}, reach=["error", "done"]),
    ],
}

_p21 = dict(harness=["p21_blocks.cc"], srcs=WP, w=4)
PROPS["P21"] = {
    "bounds": {"quick": "Block, SimpleBlock and BlockVirtual payloads of 0..8 free bytes (every header, lacing type and lacing content) inside a cluster with a following element, one interruption (short read or would-block) at every position; SimpleBlocks of 9..11 free bytes per lacing type; 3..12 block sizes from 259 bytes to 2^56 with up to 3 frames and 5 free lacing bytes",
               "thorough": "payloads of 0..9 bytes with interruption, 9..14 bytes per lacing type, 12 large sizes with 4 frames and 8 free lacing bytes"},
    "outside": "other block lengths, more than ~11 laced frames, more than one interruption",
    "units": [
        dict(_p21, name="simple", defs={"KIND": 0, "SZMIN": 0, "SZMAX": 8, "BASE": 0}, thorough={"defs": {"SZMAX": 9}}, reach=["rejected", "unlaced", "xiph", "fixed", "ebml"]),
        dict(_p21, name="block", defs={"KIND": 1, "SZMIN": 0, "SZMAX": 8, "BASE": 1000}, thorough={"defs": {"SZMAX": 9}}, reach=["rejected", "unlaced", "xiph", "fixed", "ebml"]),
        dict(_p21, name="virtual", defs={"KIND": 2, "SZMIN": 0, "SZMAX": 8, "BASE": 0}, reach=["rejected", "virtual"]),
        dict(_p21, name="xiph", defs={"KIND": 0, "SZMIN": 9, "SZMAX": 11, "BASE": 0, "NCUT": 0, "LACING": 1}, thorough={"defs": {"SZMAX": 14}}, reach=["rejected", "xiph"]),
        dict(_p21, name="fixed", defs={"KIND": 0, "SZMIN": 9, "SZMAX": 14, "BASE": 0, "NCUT": 0, "LACING": 2}, thorough={"defs": {"SZMAX": 30}}, reach=["rejected", "fixed"]),
        dict(_p21, name="ebml", defs={"KIND": 0, "SZMIN": 9, "SZMAX": 11, "BASE": 0, "NCUT": 0, "LACING": 3}, thorough={"defs": {"SZMAX": 14}}, reach=["rejected", "ebml"]),
        dict(_p21, name="big-xiph", defs={"KIND": 0, "BIG": 5, "NSIZES": 12, "BASE": 0, "NCUT": 0, "LACING": 1, "MAXN": 2}, thorough={"defs": {"BIG": 8, "MAXN": 3}}, reach=["rejected", "xiph"]),
        dict(_p21, name="big-fixed", defs={"KIND": 0, "BIG": 1, "NSIZES": 12, "BASE": 0, "NCUT": 0, "LACING": 2, "MAXN": 3}, reach=["rejected", "fixed"]),
        dict(_p21, name="big-ebml", defs={"KIND": 0, "BIG": 5, "NSIZES": 3, "BASE": 0, "NCUT": 0, "LACING": 3, "MAXN": 2}, thorough={"defs": {"BIG": 8, "NSIZES": 12, "MAXN": 3}}, reach=["rejected", "ebml"]),
    ],
}

_p18 = dict(harness=["p18_events.cc"], srcs=WP, w=4)
PROPS["P18"] = {
    "bounds": {"quick": "documents of a Segment (or none) followed by up to 3 elements chosen from 5 palettes of 8-9 elements (clusters and blocks, tracks and info, seek head and cues, tags and chapters, top level with EBML header; Void and unknown elements in each); every container size unknown, zero, ending at any later element boundary or one past the end; leaf payloads of 0..1 free bytes, free block headers",
               "thorough": "the same with every container size 0..23 bytes or unknown (boundaries inside elements), and up to 4 elements"},
    "outside": "longer documents, deeper nesting than 4 elements, multi-byte size fields (P03 decides those), element kinds outside the palettes",
    "units": [
        dict(_p18, name=nm, defs={"PAL": k, "NI": 3}, reach=re, thorough={"defs": {"NI": 4}}) for k, (nm, re) in enumerate([
            ("cluster", ["accepted", "rejected", "cluster", "frame", "unknown", "unsized"]), ("meta", ["accepted", "rejected", "unsized"]),
            ("index", ["accepted", "rejected", "unsized"]), ("tags", ["accepted", "rejected", "unsized"]), ("top", ["accepted", "rejected", "cluster", "unsized"])])
    ] + [
        dict(_p18, name=nm + "-free", defs={"PAL": k, "NI": 3, "FREE": 1}, reach=["accepted", "rejected"], thorough_only=True) for k, nm in enumerate(["cluster", "meta", "index", "tags", "top"])],
}

_p19 = dict(harness=["p19_fields.cc"], srcs=WP, w=2, reach=["container"])
PROPS["P19"] = {
    "bounds": {"quick": "every container the parser reports (EBML header, Info, Seek, Cluster, BlockGroup, TrackEntry, CuePoint, EditionEntry, Tag) and every container inside those, with up to 2-3 children in every choice and order (repetitions included), nested containers two levels deeper with one child each; leaf payloads empty or of 1-8 free bytes; two sibling containers with one child each",
               "thorough": "the same with up to 3 children for most containers (4 for the small ones)"},
    "outside": "more children at once; payload lengths other than 0, 1-4 and 8 (P03 decides the decoders); recursion deeper than four levels; lacing (P21)",
    "units": [dict(_p19, name=n, defs=dict({"ROOT": r}, **d), thorough={"defs": {"NI": d.get("NI", 2) + (0 if n in ("track", "tracks", "video") else 1)}}) for n, r, d in [
        ("ebml", 0, {"NI": 3}), ("info", 1, {"NI": 3}), ("seek", 2, {"NI": 3}), ("cluster", 3, {"NI": 2}), ("group", 4, {"NI": 2}), ("track", 5, {"NI": 2}),
        ("cue", 6, {"NI": 3}), ("edition", 7, {"NI": 2}), ("tag", 8, {"NI": 2}),
        ("more", 4, {"PATH": "0x75A1,0xA6"}), ("slice", 4, {"PATH": "0x8E,0xE8"}), ("video", 5, {"PATH": "0xE0"}), ("colour", 5, {"PATH": "0xE0,0x55B0"}),
        ("mastering", 5, {"PATH": "0xE0,0x55B0,0x55D0"}), ("projection", 5, {"PATH": "0xE0,0x7670"}), ("audio", 5, {"PATH": "0xE1", "NI": 3}),
        ("encoding", 5, {"PATH": "0x6D80,0x6240"}), ("encryption", 5, {"PATH": "0x6D80,0x6240,0x5035"}), ("positions", 6, {"PATH": "0xB7"}),
        ("atom", 7, {"PATH": "0xB6"}), ("atom2", 7, {"PATH": "0xB6,0xB6"}), ("display", 7, {"PATH": "0xB6,0x80", "NI": 3}), ("targets", 8, {"PATH": "0x63C0", "NI": 3}), ("simpletag", 8, {"PATH": "0x67C8"}), ("simpletag2", 8, {"PATH": "0x67C8,0x67C8"}),
        ("tracks", 5, {"NI": 1, "ROOTS": 2}), ("groups", 4, {"NI": 1, "ROOTS": 2}), ("infos", 1, {"NI": 1, "ROOTS": 2}), ("clusters", 3, {"NI": 1, "ROOTS": 2}), ("cues", 6, {"NI": 1, "ROOTS": 2}), ("editions", 7, {"NI": 1, "ROOTS": 2}), ("tags", 8, {"NI": 1, "ROOTS": 2}),
    ]],
}

_p17 = dict(harness=["p17_delivery.cc"], srcs=WP, w=2)
_roots = ["ebml", "info", "seek", "cluster", "group", "track", "cue", "edition", "tag"]
PROPS["P17"] = {
    "bounds": {"quick": "documents holding every element the parser knows, once, with free payload bytes, plus padding and an unknown element: one interruption (short read or would-block) at every position (two except for tracks and clusters), and delivery byte by byte with a pause before every byte, ending at every position; containers with up to 2 chosen children, and documents of up to 2 elements of the P18 palettes (well-formed or not), under one interruption; compared event by event, field by field and byte by byte with undivided delivery",
               "thorough": "one interruption more, 3 elements"},
    "outside": "more interruptions except the byte-by-byte schedule; longer documents; pauses requested by the client's callback (P22)",
    "units": [dict(_p17, name="one-" + r, defs={"ROOT": i, "ALL": 1, "NCUT": 1 if r in ("track", "cluster", "group") else 2, "TRUNC": 0, "NI": 1}, reach=["accepted", "paused"], thorough={"defs": {"NCUT": 2 if r in ("track", "cluster", "group") else 3}}) for i, r in enumerate(_roots)]
    + [dict(_p17, name="bytes-" + r, defs={"ROOT": i, "ALL": 1, "NCUT": 0, "TRUNC": 1, "NI": 1}, reach=["accepted", "rejected", "paused"]) for i, r in enumerate(_roots)]
    + [dict(_p17, name="few-" + r, defs={"ROOT": i, "ALL": 0, "NCUT": 1, "TRUNC": 0, "NI": 1 if r == "track" else 2}, reach=["accepted", "paused"], thorough={"defs": {"NCUT": 2}}) for i, r in enumerate(_roots)]
    + [dict(_p18, name="doc-" + r, defs={"PAL": i, "NCUT": 1, "NI": 2, "DELIV": 1}, reach=["accepted", "rejected", "paused"], thorough={"defs": {"NI": 3}}) for i, r in enumerate(["cluster", "meta", "index", "tags", "top"])],
}

PROPS["P20"] = {
    "bounds": {"quick": "documents of up to 3 elements of the P18 palettes (every container sized in every way, unknown sizes included) with any one of the first 8 skip questions answered with skip; containers with up to 2 chosen children and documents holding every known element once, with any one element skipped",
               "thorough": "any two questions answered with skip"},
    "outside": "more than two skipped elements; longer documents",
    "units": [dict(_p18, name="doc-" + r, defs={"PAL": i, "NI": 3, "SKIPN": 1, "SKIPQ": 9, "SIZES_OK": 1}, reach=["accepted", "skipped"], thorough={"defs": {"NI": 3}}) for i, r in enumerate(["cluster", "meta", "index", "tags", "top"])]
    + [dict(_p18, name="doc2-" + r, defs={"PAL": i, "NI": 3, "SKIPN": 2, "SKIPQ": 9, "SIZES_OK": 1}, reach=["accepted", "skipped"], thorough_only=True) for i, r in enumerate(["cluster", "meta", "index", "tags", "top"])]
    + [dict(_p19, name="few-" + r, defs={"ROOT": i, "NI": 1 if r == "track" else 2, "SKIPQ": 6}, reach=["container", "skipped", "root-skipped"]) for i, r in enumerate(_roots)]
    + [dict(_p19, name="all-" + r, defs={"ROOT": i, "ALL": 1, "NI": 2, "SKIPQ": 100}, reach=["container", "skipped", "root-skipped"]) for i, r in enumerate(_roots)],
}

_p22 = dict(harness=["p22_safety.cc"], srcs=WP, w=2, t=120)
_SEG = "0x18538067"
_safety = [  # name, containers around, element ids tried
    ("top", "0", "0x1A45DFA3,0x18538067,0xEC,0x4FFF"),
    ("ebml", "0x1A45DFA3", "0x4286,0x4282,0xEC,0x18538067"),
    ("segment", _SEG, "0x114D9B74,0x1549A966,0x1F43B675,0x1654AE6B,0x1C53BB6B,0x1043A770,0x1254C367,0xEC,0x4FFF"),
    ("cluster", _SEG + ",0x1F43B675", "0xE7,0xAB,0xA3,0xA0,0xEC,0x4FFF"),
    ("group", _SEG + ",0x1F43B675,0xA0", "0xA1,0xA2,0x75A1,0x9B,0xFB,0x75A2,0x8E,0xEC"),
    ("info", _SEG + ",0x1549A966", "0x2AD7B1,0x4489,0x4461,0x7BA9"),
    ("seek", _SEG + ",0x114D9B74,0x4DBB", "0x53AB,0x53AC,0x4DBB"),
    ("track", _SEG + ",0x1654AE6B,0xAE", "0xD7,0xB9,0x86,0x63A2,0xE0,0xE1,0x6D80,0xAE"),
    ("video", _SEG + ",0x1654AE6B,0xAE,0xE0", "0xB0,0x54B0,0x2383E3,0x55B0,0x7670,0x9A"),
    ("cue", _SEG + ",0x1C53BB6B,0xBB", "0xB3,0xB7,0xBB"),
    ("atom", _SEG + ",0x1043A770,0x45B9,0xB6", "0x73C4,0x5654,0x80,0xB6"),
    ("tag", _SEG + ",0x1254C367,0x7373,0x67C8", "0x45A3,0x4484,0x4485,0x67C8,0x63C0"),
]
PROPS["P22"] = {
    "bounds": {"quick": "any 6 bytes at top level; inside each of 12 kinds of container any of its elements (plus padding, unknown and parent elements) with size unknown, 0..10 or any value from 2^20 up to 2^56, followed by 2 free bytes; the same with 1 free byte and a client that stops with any status, pauses, or skips at any of the first 6 events, or an input that fails with any status at any position, once or always; documents holding every known element with the client pausing at any one event or taking content byte by byte; up to four Feed calls after the failure",
               "thorough": "one free byte more"},
    "outside": "longer documents; element sizes of 11..2^20-1 bytes (string and binary elements of that size are allocated as declared; sizes from 2^20 are taken to exhaust memory); exceptions; recursion depth beyond the bounds",
    "units": [dict(_p22, name="raw", defs={"PRE": "0", "FREEB": 6, "REACT": 0, "RFAIL": 0}, reach=["end", "error", "resumed"])]
    + [dict(_p22, name="bytes-" + n, defs={"PRE": p, "IDS": i, "ELEMS": 1, "FREEB": 2, "REACT": 0, "RFAIL": 0}, thorough={"defs": {"FREEB": 3}}) for n, p, i in _safety]
    + [dict(_p22, name="react-" + n, defs={"PRE": p, "IDS": i, "ELEMS": 1, "FREEB": 1, "REACT": 1, "RFAIL": 0}, thorough={"defs": {"FREEB": 2}}) for n, p, i in _safety]
    + [dict(_p22, name="fail-" + n, defs={"PRE": p, "IDS": i, "ELEMS": 1, "FREEB": 1, "REACT": 0, "RFAIL": 1}, thorough={"defs": {"FREEB": 2}}) for n, p, i in _safety]
    + [dict(_p17, name="client-" + r, defs={"ROOT": i, "ALL": 1, "NCUT": 0, "TRUNC": 0, "NI": 1, "CLIENT": 120}, reach=["accepted", "paused"]) for i, r in enumerate(_roots)],
}

PROPS["P23"] = {
    "bounds": {"quick": "well-formed documents of up to 3 elements of each of 5 palettes with every valid sizing, and documents holding every known element once, resumed at every element; before that any prefix of the document was parsed and ended there, was cut off or failed; every event behind the position equals the one of a straight reading, enclosing elements end with the values that follow the position",
               "thorough": "the same"},
    "outside": "documents with elements out of their place (they end the enclosing elements, whose sizes are no longer known); padding is not attributed to an enclosing element; longer documents",
    "units": [dict(_p18, name=r, defs={"PAL": i, "NI": 3, "RESUME": 1, "SIZES_OK": 1}, reach=["resumed", "mid-parse"] + (["enclosing"] if r != "top" else [])) for i, r in enumerate(["cluster", "meta", "index", "tags", "top"])]
    + [dict(_p17, name="each-" + r, defs={"ROOT": i, "ALL": 1, "NCUT": 0, "TRUNC": 0, "NI": 1, "RESUME": 1}, reach=["resumed", "enclosing", "mid-parse"]) for i, r in enumerate(_roots)],
}

_p04 = dict(harness=["p04_tracks.cc"], srcs=MUX + PARSER, w=2)
PROPS["P04"] = {
    "bounds": {"quick": "a video or audio track (and one that follows): each integer property in turn any 64-bit value, every 32-bit float pattern in its accepted range, strings and private data of 0..3 or 126..128 bytes, with every other property absent or present with any small value, or any one other present; 0..2 content encodings; every colour, mastering, chromaticity and projection field likewise; read back by an independent element reader and by the demuxer",
               "thorough": "the same"},
    "outside": "two fully free 64-bit fields in one track; strings longer than 128 bytes; denormal floats and integers of 63 bits and more are compared with the stored bytes only (the demuxer refuses them)",
    "units": [dict(_p04, name=n, defs={"KIND": i}, reach=["written", "demuxed"]) for i, n in enumerate(["video", "audio", "colour", "projection"])],
}

_p05 = dict(harness=["p05_meta.cc"], srcs=MUX + PARSER, w=2)
PROPS["P05"] = {
    "bounds": {"quick": "segment information: any time scale, any date, any positive finite duration, rewritten or not at finalisation, both application names absent or of 0..2 free or 126/127 bytes; 1..3 chapters with 0..2 titles each and 1..3 tags with 0..2 entries each: one identifier or time any 64-bit value, each string in turn absent, of 0..2 free or 126/127 bytes while the others are absent, empty or short; read back by an independent element reader and by the demuxer",
               "thorough": "the same"},
    "outside": "strings longer than 127 bytes; duration and time scale both free; more entries; the demuxer reports empty strings and empty tags as absent; zero time scales",
    "units": [dict(_p05, name=n, defs={"KIND": i, "N": 3, "D": 2}, reach=["written", "demuxed"]) for i, n in enumerate(["info", "chapters", "tags"])],
}

def _mux(prop, **kw):
    d = {"PROP": prop}
    d.update(kw)
    return dict(harness=["p06_mux.cc"], srcs=MUX, w=2, defs=d)
def _mux_units(prop):
    u = 1 if prop == 8 else 0
    R = ["finalized", "clusters", "refused"]
    l = [
        dict(_mux(prop, NF=3, USERDUR=u), name="av", reach=R, thorough={"defs": {"NF": 4}}),
        dict(_mux(prop, NF=3, USERDUR=u, ORDERED=1), name="av-ordered", reach=R[:2], thorough={"defs": {"NF": 4}}),
        dict(_mux(prop, NF=3, USERDUR=u, TRK=1), name="audio", reach=R, thorough={"defs": {"NF": 4}}),
        dict(_mux(prop, NF=3, USERDUR=u, TRK=2), name="videos", reach=R),
        dict(_mux(prop, NF=3, USERDUR=u, TRK=5), name="audios", reach=R, thorough={"defs": {"NF": 4}}),
        dict(_mux(prop, NF=3, USERDUR=1, TRK=4, ACC=1), name="accurate", budget=400, w=3, reach=R, thorough={"defs": {"NF": 4}}),
        dict(_mux(prop, NF=2, USERDUR=u, KINDS=31, NONKEYA=1), name="kinds", reach=R),
        dict(_mux(prop, NF=2, USERDUR=1, KINDS=31, NONKEYA=1, TRK=4, ACC=1), name="kinds-accurate", reach=R),
        dict(_mux(prop, NF=3, USERDUR=u, FORCE=1), name="forced", reach=R),
        dict(_mux(prop, NF=3, USERDUR=u, LIMD=1), name="duration-limit", reach=R),
        dict(_mux(prop, NF=3, USERDUR=u, LIMS=1, BIGLEN=1), name="size-limit", reach=R),
        dict(_mux(prop, NF=2, USERDUR=u, OPT=1), name="options", reach=R),
        dict(_mux(prop, NF=2, USERDUR=u, SCALE=1000000), name="milliseconds", reach=R),
    ]
    if prop == 8:
        l.append(dict(_mux(prop, NF=2, TSBITS=8, USERDUR=0, OPT=2, KINDS=2, NONKEYA=1), name="duration", reach=R[:1]))
    return l
for _p in (6, 7, 8):
    PROPS["P%02d" % _p] = {
        "bounds": {"quick": "every history of up to 3 frame additions (then finalisation) on: video+audio, audio alone, two videos and audio, video and two audios, audio numbered before video 126 with accurate cluster durations; every timestamp below 2^17 ticks, key flag of video, two free payload bytes per frame, sizes from {1..3, 122..124}; free duration limit (16 bit), free size limit below 80, forced clusters at any frame; histories of up to 2 additions with one frame of every kind (simple, duration, additional data, discard padding, all three, through every Add call, key or not), with every output option (live, not seekable, no cues, fixed size time, estimated duration, cues of another track, caller's duration), and at the millisecond scale; the file is read back by an independent element reader",
                   "thorough": "up to 4 additions in the first units"},
        "outside": "longer histories, larger payloads, more tracks, timestamps from 2^17 ticks, chunking; writers that fail (P10)" + {6: "", 7: "; limits are not claimed for audio held back in a file with video", 8: "; the duration is computed for timestamps below 256 ticks (double arithmetic in the solver)"}[_p],
        "units": _mux_units(_p)}
_p10 = dict(harness=["p10_fault.cc"], srcs=MUX, w=2)
_p10r = ["failed", "not failed"]
PROPS["P10"] = {
    "bounds": {"quick": "every position of the first failing write or seek, failing once with a negative or a positive status or for good, in every history of up to 2 frame additions and two finalisations on video+audio with each output option (live, not seekable, fixed size time, accurate cluster durations) or one frame of each kind; from the first cluster on for all histories, from the first byte for histories of one frame and for a segment with all video, audio, chapter or tag settings", "thorough": "3 additions"},
    "outside": "failures of notifications (they have no status), of allocation, of chunked output files and of the file writer",
    "units": [
        dict(_p10, name="header", defs={"NF": 1, "HEADER": 1}, reach=_p10r),
        dict(dict(_p10, w=3), name="frames", defs={"NF": 2}, reach=_p10r, thorough={"defs": {"NF": 3}}),
        dict(dict(_p10, w=3), name="frames-accurate", defs={"NF": 2, "ACC": 1}, reach=_p10r, thorough={"defs": {"NF": 3}}),
        dict(_p10, name="video-metadata", defs={"META": 2}, reach=_p10r),
        dict(_p10, name="audio-metadata", defs={"META": 3}, reach=_p10r),
        dict(_p10, name="chapters-tags", defs={"META": 4}, reach=_p10r),
    ],
}
_p09 = dict(harness=["p09_move.cc"], srcs=MUX, w=2)
PROPS["P09"] = {
    "bounds": {"quick": "files of 1..3 frames on video+audio with 16-bit times in order, free flags, one of them large or none, and each output option (fixed size times, accurate durations, cues of the audio, chapters and tags; no cues, live or not seekable: refused), rewritten and compared element by element; index entries with free 48-bit cluster positions: 3 of 3, 2 of 8, 9, 10 or 11 (where the index needs a longer size); every failing write, seek or read", "thorough": "4 frames, 4 free positions"},
    "outside": "longer files; more than 11 cues; positions from 2^48",
    "units": [
        dict(dict(_p09, w=3), name="files", defs={"MODE": 0, "NF": 3}, reach=["moved", "refused"], thorough={"defs": {"NF": 4}}),
        dict(_p09, name="positions", defs={"MODE": 1, "NCUES": 3, "NSYM": 3}, reach=["moved"], thorough={"defs": {"NCUES": 4, "NSYM": 4}}),
    ] + [dict(_p09, name="index-size-%d" % n, defs={"MODE": 1, "NCUES": n, "NSYM": 2}, reach=["moved"]) for n in (8, 9, 10, 11)] + [
        dict(_p09, name="failures", defs={"MODE": 2}, reach=["moved", "failed"]),
    ],
}
_p12 = dict(harness=["p12_parse.cc"], srcs=PARSER, w=1)
def _p12r(nm, st):
    return [] if nm == "file" else ["segment"] if nm in ("header", "after-header") else ["segment", "loaded"]
_P12 = ["file", "after-header", "segment", "info", "tracks", "track", "video", "colour", "mastering", "projection", "audio", "encoding", "compression", "encryption", "aes", "cues", "cue-point", "cue-positions", "seek-head", "seek", "chapters", "edition", "atom", "display", "tags", "tag", "simple-tag", "cluster", "group-tail", "group", "open-cluster", "header", "between-clusters", "cues-at-end"]
_p12k = {"file": 8, "track": 8, "atom": 8, "edition": 8, "header": 5, "cue-positions": 7, "cues-at-end": 6, "encryption": 8, "video": 8, "segment": 11, "after-header": 11, "aes": 10, "projection": 10, "mastering": 10, "seek": 11, "cue-point": 10}
_p12u = [dict(_p12, name=nm, defs={"PART": i, "K": _p12k.get(nm, 9)}, reach=_p12r(nm, 0)) for i, nm in enumerate(_P12)]
_p12u += [dict(_p12, name="%s-%s" % (nm, sn), defs={"PART": _P12.index(nm), "K": k, "STEP": st}, reach=_p12r(nm, st))
          for st, sn in ((1, "next"), (2, "step")) for nm, k in (("cluster", 8), ("group", 8), ("open-cluster", 8), ("between-clusters", 8), ("after-header", 9), ("cues", 8))]
_p12u += [dict(_p12, name="reader-fails%s%s" % (rn, sn), defs={"PART": 34 + r, "STEP": st}, reach=["segment", "loaded", "cluster walked"]) for r, rn in ((0, ""), (1, "-rich")) for st, sn in ((0, ""), (1, "-next"), (2, "-step"))]
PROPS["P12"] = {
    "bounds": {"quick": "34 places of the element tree (the bare file with a free start position, the EBML header, between top-level elements, and inside each of: info, tracks, track, video, colour, mastering, projection, audio, the content encodings, cues, cue points and positions, seek head, chapters, tags, clusters, block groups, a cluster of unknown size), each with 5 to 11 free bytes after a well-formed prefix and with well-formed elements around; loaded at once, and for clusters, groups and top level also by ParseNext and LoadCluster; then every getter, block, frame, cue and time lookup is called; and a reader that fails once or from some call on, at any call, with either refusal code, over two fixed well-formed files, one with every kind of metadata"},
    "outside": "more free bytes; several damaged places at once; data that arrives gradually (P15); files larger than 700 bytes",
    "units": _p12u,
}
