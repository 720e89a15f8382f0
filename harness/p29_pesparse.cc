#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include "common/libwebm_util.h"
#include "common/video_frame.h"
#include "m2ts/vpxpes_parser.h"
#include "symx.h"
using namespace libwebm;
namespace libwebm { uint64_t GetFileSize(const std::string& n) { SymFile* s = symfs_get(n[0]); return s->exists ? s->len : 0; } }
static void parse(SymFile* s, int rounds) {
  VpxPesParser p;
  bool opened = p.Open("a");
  CHECKM(opened == (s->len > 0), "a non-empty file opens");
  if (!opened) { symx_reach("empty"); return; }
  CHECK(p.pes_file_size() == s->len && p.pes_file_data().size() == s->len);
  int left = p.BytesAvailable();
  CHECK(left == (int)s->len);
  for (int i = 0; i < rounds; i++) {
    VpxPesParser::PesHeader h;
    VideoFrame v;
    bool ok = p.ParseNextPacket(&h, &v);
    int now = p.BytesAvailable();
    CHECKM(now >= 0 && now <= left, "the read position never leaves the data");
    if (!ok) { symx_reach("failure"); continue; }
    CHECKM(h.bcmv_header.Valid() && h.bcmv_header.length > 10, "only frames with a valid header are returned");
    CHECKM(v.buffer().length == h.bcmv_header.length - 10, "a frame has the announced length");
    CHECKM(v.buffer().length + 25 <= (size_t)(left - now), "a frame lies within the consumed data");
    CHECK(h.stream_id >= 0xE0 && h.stream_id <= 0xEF);
    left = now;
    symx_reach("frame");
    if (i) symx_reach("second");
  }
}
extern "C" void symx_main() {
#if MODE == 0
  int n = (int)symx_pick("len", 0, NMAX);
  SymFile* s = symfs_make('a', n);
  symx_bytes(s->data, n, "data");
  s->len = n;
  parse(s, 2);
#else
  static uint8_t b[128];
  int n = 0;
  auto put = [&](std::initializer_list<int> l) { for (int v : l) b[n++] = (uint8_t)v; };
#if MODE == 2
  int gap = (int)symx_pick("gap", 0, 3);
  for (int i = 0; i < gap; i++) b[n++] = symx_u8("gap");
#endif
  for (int k = 0; k < PACKETS; k++) {
    bool frag = k > 0 && symx_pick("frag", 0, 1);
    put({0, 0, 1});
    b[n] = MODE == 2 ? symx_u8("sid") : 0xE0;
    n++;
    // packet length: small, or anything
    int lk = (int)symx_pick("lenkind", 0, 2);
    int pl = (int)symx_pick("pl", 1, PL);
    static const int SHORT[8] = {0, 8, 9, 10, 18, 19, 20, 31};
    int len = lk == 0 ? 9 + (frag ? 0 : 10) + pl : lk == 1 ? SHORT[symx_pick("len", 0, 7)] : 0xFFF0;
    put({len >> 8, len & 255, 0x80});
    int pts = MODE == 2 ? (int)symx_pick("pts", 0, 1) : !frag;
    if (pts) { put({0x80, 6, 0x21, 0, 1, 0}); b[n] = MODE == 2 ? symx_u8("pts") : 1; n++; b[n] = MODE == 2 ? symx_u8("stuff") : 0xFF; n++; }
    else put({0, 6, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF});
    if (!frag) {
      put({'B', 'C', 'M'});
      b[n] = MODE == 2 ? symx_u8("v") : 'V';
      n++;
      static const uint32_t BL[10] = {0, 9, 10, 11, 12, 13, 14, 31, 0x10000, 0xFFFFFFFF};
      uint32_t c = BL[symx_pick("bcmv", 0, 9)];
      put({0, 0, 0, 0, 0, 0});
      b[n - 6] = (uint8_t)(c >> 24); b[n - 5] = (uint8_t)(c >> 16); b[n - 4] = (uint8_t)(c >> 8); b[n - 3] = (uint8_t)c;
    }
    symx_bytes(b + n, pl, "payload");
    n += pl;
  }
  int cut = (int)symx_pick("cut", 0, CUT);  // truncation
  int len = cut < n ? n - cut : 0;
  SymFile* s = symfs_make('a', len);
  memcpy(s->data, b, len);
  s->len = len;
  parse(s, PACKETS + 1);
#endif
}
