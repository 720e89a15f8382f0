import sys; sys.path.insert(0, "/verif/tools")
from seedlib import seed
MUXS = ["mkvmuxer/mkvmuxer.cc", "mkvmuxer/mkvmuxerutil.cc", "mkvmuxer/mkvwriter.cc"]
seed("P31-unget-sign", "P31",
  [("webvtt/webvttparser.cc", "unget_ = static_cast<unsigned char>(c);", "unget_ = c;")],
  "a line ended by a lone CR whose next line starts with a byte of 0x80 or more (a non-ASCII letter)",
  "the pushed back byte is negative and counts as 'nothing pushed back', so the first byte of the line is lost",
  ["webvtt/webvttparser.cc"], r'''
#include "webvtt/webvttparser.h"
#include <string>
struct S : libwebvtt::Reader { std::string s; size_t i = 0; int GetChar(char* c) override { if (i >= s.size()) return 1; *c = s[i++]; return 0; } };
int main() {
  S s; s.s = "WEBVTT\r\r1 --> 2\r\xC3\xA9t\xC3\xA9\r\xC3\xA0\r\r";
  libwebvtt::Parser p(&s); libwebvtt::Cue c;
  if (p.Init() || p.Parse(&c)) return 1;
  if (c.payload.size() != 2) return 1;
  return c.payload.front() == "\xC3\xA9t\xC3\xA9" && c.payload.back() == "\xC3\xA0" ? 0 : 1;
}
''')
seed("P31-ms-trunc", "P31",
  [("webvtt/webvttparser.cc", "  const presentation_t dd = d + rhs;\n", "  const int dd = static_cast<int>(d + rhs);\n")],
  "adding an offset that moves a time past 2^31 milliseconds (596 hours)",
  "time arithmetic truncates to 32 bits", ["webvtt/webvttparser.cc"], r'''
#include "webvtt/webvttparser.h"
int main() { libwebvtt::Time t; t.hours = 596; t.minutes = 31; t.seconds = 23; t.milliseconds = 0; t += 1000; return t.presentation() == 2147483000ll + 1000 ? 0 : 1; }
''')
seed("P13-xiph-terminator", "P13",
  [("mkvparser/mkvparser.cc", '''        frame_size += val;

        if (val < 255)
          break;
''', '''        frame_size += val;

        if (val < 255 || frame_size > (stop - pos) / 2)
          break;
''')],
  "a Xiph laced block with a frame size of 255 bytes or more that is larger than half of what is left",
  "the terminating size byte of such a frame is taken as the next size or as frame data",
  ["mkvparser/mkvparser.cc"], r'''
#include "mkvparser/mkvparser.h"
#include <string>
#include <string.h>
struct R : mkvparser::IMkvReader { std::string s;
  int Read(long long p, long n, unsigned char* b) override { if (p < 0 || n < 0 || p + n > (long long)s.size()) return -1; memcpy(b, s.data() + p, n); return 0; }
  int Length(long long* t, long long* a) override { if (t) *t = s.size(); if (a) *a = s.size(); return 0; } };
static std::string el(const std::string& id, const std::string& v) { std::string o = id; o += char(0x10); for (int i = 2; i >= 0; i--) o += char(v.size() >> (8 * i)); return o + v; }
int main() {
  R r;
  std::string ebml = el("\x1A\x45\xDF\xA3", std::string("\x42\x82\x84webm", 7));
  std::string info = el("\x15\x49\xA9\x66", std::string("\x2A\xD7\xB1\x83\x0F\x42\x40", 7));
  std::string te = el("\xAE", std::string("\xD7\x81\x01\x73\xC5\x81\x01\x83\x81\x01\x86\x85V_VP8\xE0\x86\xB0\x81\x10\xBA\x81\x10", 25));
  std::string blk = std::string("\x81\x00\x00\x02\x01", 5) + std::string("\xFF\x00", 2) + std::string(255, 'a') + std::string(20, 'b');
  std::string cl = el("\x1F\x43\xB6\x75", std::string("\xE7\x81\x00", 3) + el("\xA3", blk));
  r.s = ebml + el("\x18\x53\x80\x67", info + el("\x16\x54\xAE\x6B", te) + cl);
  long long pos = 0; mkvparser::EBMLHeader h; if (h.Parse(&r, pos)) return 2;
  mkvparser::Segment* s = 0; if (mkvparser::Segment::CreateInstance(&r, pos, s) || s->Load() < 0) return 2;
  const mkvparser::Cluster* c = s->GetFirst(); if (!c || c->EOS()) return 2;
  const mkvparser::BlockEntry* e = 0; if (c->GetFirst(e) || !e) return 1;
  const mkvparser::Block* b = e->GetBlock();
  return b->GetFrameCount() == 2 && b->GetFrame(0).len == 255 && b->GetFrame(1).len == 20 ? 0 : 1;
}
''')
seed("P25-tile-cols", "P25",
  [("common/vp9_header_parser.cc", "    while (max_ones-- && ReadBit())\n      log2_tile_cols++;", "    while (max_ones-- > 0 && log2_tile_cols < 4 && ReadBit())\n      log2_tile_cols++;")],
  "a key frame wide enough (8192 luma samples or more) to signal 32 or more tile columns",
  "the tile column count is capped at 16 and the following bits are misread",
  ["common/vp9_header_parser.cc"], r'''
#include "common/vp9_header_parser.h"
#include <vector>
std::vector<uint8_t> o; int nb = 0;
void put(int v, int n) { for (int i = n - 1; i >= 0; i--) { if (nb % 8 == 0) o.push_back(0); o[nb / 8] |= ((v >> i) & 1) << (7 - nb % 8); nb++; } }
int main() {
  put(2, 2); put(0, 2); put(0, 1); put(0, 1); put(1, 1); put(0, 1);
  put(0x498342, 24); put(2, 3); put(0, 1);
  put(16383, 16); put(1087, 16); put(0, 1);
  put(1, 1); put(1, 1); put(0, 2); put(5, 6); put(0, 3); put(0, 1); put(60, 8); put(0, 3); put(0, 1);
  for (int i = 0; i < 4; i++) put(1, 1);   // columns: min log2 2, max 6: 64 columns
  put(1, 1); put(0, 1); put(0, 16);
  vp9_parser::Vp9HeaderParser p;
  if (!p.ParseUncompressedHeader(o.data(), o.size())) return 2;
  return p.column_tiles() == 64 && p.row_tiles() == 2 ? 0 : 1;
}
''')
seed("P01-coded-unknown", "P01",
  [("mkvmuxer/mkvmuxerutil.cc", "  else if (value < 0x0001FFFFFFFFFFFFULL)\n    return 7;", "  else if (value <= 0x0001FFFFFFFFFFFFULL)\n    return 7;")],
  "a size of exactly 2^49-1", "the size is coded with all bits set, which means 'unknown size'",
  MUXS, r'''
#include "mkvmuxer/mkvmuxerutil.h"
int main() { return mkvmuxer::GetCodedUIntSize(0x0001FFFFFFFFFFFFULL) == 8 ? 0 : 1; }
''')
seed("P30-pad-one", "P30",
  [("m2ts/vpxpes2ts.cc", '''      if (payload_size == (kTsPayloadSize - 1)) {
        payload_size--;
      }
''', '''      if (payload_size == (kTsPayloadSize - 1) &&
          bytes_to_packetize != static_cast<int>(packet_data.size())) {
        payload_size--;
      }
''')],
  "a PES packet of exactly 183 bytes (first and only TS packet)",
  "no room for the adaptation field: the packet has the wrong length and the conversion fails",
  ["m2ts/vpxpes2ts.cc", "m2ts/webm2pes.cc", "common/libwebm_util.cc", "common/video_frame.cc", "mkvparser/mkvparser.cc", "mkvparser/mkvreader.cc"], r'''
#define private public
#include <cstdio>
#include <memory>
#include <string>
#include <vector>
#include "m2ts/vpxpes2ts.h"
#undef private
int main() {
  libwebm::VpxPes2Ts t("none", "out.ts");
  t.output_file_ = libwebm::FilePtr(fopen("out.ts", "wb"), libwebm::FILEDeleter());
  t.ts_buffer_.resize(188);
  libwebm::PacketDataBuffer b;
  for (int i = 0; i < 183; i++) b.push_back(i);
  return t.ReceivePacket(b) ? 0 : 1;
}
''')
seed("P03-sign-7", "P03",
  [("webm_parser/src/int_parser.h", "    if (std::is_signed<T>::value && num_bytes_remaining_ == 0 && size_ > 0) {", "    if (std::is_signed<T>::value && num_bytes_remaining_ == 0 && *num_bytes_read > 0 &&\n        static_cast<int>(*num_bytes_read) == size_) {")],
  "a negative signed element whose bytes arrive in more than one piece",
  "the value is not sign extended when the input is delivered in pieces",
  [ "webm_parser/src/parser_utils.cc", "webm_parser/src/buffer_reader.cc", "webm_parser/src/callback.cc"], r'''
#include "src/int_parser.h"
#include "webm/callback.h"
#include "webm/buffer_reader.h"
using namespace webm;
int main() {
  Callback cb; SignedIntParser p; ElementMetadata m; m.size = 2; m.header_size = 2; m.position = 0;
  if (!p.Init(m, 2).completed_ok()) return 2;
  BufferReader a({0xFF}), b({0xFE}); std::uint64_t n = 0;
  Status s = p.Feed(&cb, &a, &n);
  if (s.ok() && s.code == Status::kOkCompleted) return 2;
  s = p.Feed(&cb, &b, &n);
  if (!s.completed_ok()) return 2;
  return p.value() == -2 ? 0 : 1;
}
''')
