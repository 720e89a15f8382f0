#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include "common/libwebm_util.h"
#include "common/video_frame.h"
#include "m2ts/vpxpes_parser.h"
#include "m2ts/webm2pes.h"
#include "symx.h"
using namespace libwebm;
namespace libwebm { uint64_t GetFileSize(const std::string& n) { SymFile* s = symfs_get(n[0]); return s->exists ? s->len : 0; } }

struct Fr { const uint8_t* d; size_t n; uint64_t ticks; };
static Fr fr[8];
static int nf = 0;
static void expect(const uint8_t* d, size_t n, uint64_t ticks) { fr[nf++] = {d, n, ticks}; }

static void putFile(SymFile* s, const PacketDataBuffer& b) {
  CHECKM(s->len + b.size() <= s->cap, "harness: file capacity");
  if (b.size()) memcpy(s->data + s->len, b.data(), b.size());
  s->len += b.size();
}
// the stream parses back into exactly the expected frames; start codes occur only at packet starts
static void readBack(SymFile* s, int packets) {
#ifndef NOSCAN
  uint64_t codes = 0;
  for (size_t i = 0; i + 3 <= s->len; i++) codes += (s->data[i] == 0) & (s->data[i + 1] == 0) & (s->data[i + 2] == 1);
  CHECKM(codes == (uint64_t)packets, "a start code occurs exactly once per packet");
#endif
  VpxPesParser p;
  CHECK(p.Open("a"));
  for (int i = 0; i < nf; i++) {
    VpxPesParser::PesHeader h;
    VideoFrame v;
    bool ok = p.ParseNextPacket(&h, &v);
    CHECKM(ok, "every written frame parses back");
    if (!ok) return;
    CHECKM(v.buffer().length == fr[i].n, "same length");
    bool same = v.buffer().length == fr[i].n;
    for (size_t k = 0; same && k < fr[i].n; k++) CHECKM(v.buffer().data.get()[k] == fr[i].d[k], "same payload");
    CHECKM(h.opt_header.pts == (fr[i].ticks & 0x1FFFFFFFFull), "same presentation time");
    CHECK(h.start_code[0] == 0 && h.start_code[1] == 0 && h.start_code[2] == 1 && h.stream_id == 0xE0);
    CHECK(h.opt_header.marker == 2 && h.opt_header.has_pts == 1 && h.opt_header.has_dts == 0 && h.opt_header.scrambling == 0 && h.opt_header.priority == 0);
    CHECK(h.opt_header.data_alignment == 0 && h.opt_header.copyright == 0 && h.opt_header.original == 0 && h.opt_header.unused_fields == 0 && h.opt_header.remaining_size == 6);
    CHECK(h.bcmv_header.length == fr[i].n + 10);
    symx_reach("frame");
  }
  VpxPesParser::PesHeader h;
  VideoFrame v;
  CHECKM(!p.ParseNextPacket(&h, &v), "no frame is made up");
  CHECKM(p.BytesAvailable() == 0, "everything was consumed");
}

extern "C" void symx_main() {
#if MODE == 0  // every 33-bit time stamp
  SymFile* s = symfs_make('a', 256);
  uint64_t t = symx_u64("ticks");
  symx_assume(t < (1ull << 33));
  static const uint8_t d[3] = {0x82, 0, 7};
  PacketDataBuffer b;
  for (int i = 0; i < 2; i++) {
    PesHeader h;
    h.optional_header.SetPtsBits((int64_t)(i ? 0x1FFFFFFFFull - t : t));
    h.packet_length = 13;
    CHECK(h.Write(true, &b));
    BCMVHeader m(3);
    CHECK(m.Write(&b));
    CHECK(CopyAndEscapeStartCodes(d, 3, &b));
    expect(d, 3, i ? 0x1FFFFFFFFull - t : t);
  }
  putFile(s, b);
  readBack(s, 2);
#elif MODE == 1  // every payload: one frame of up to FMAX bytes, then a short one
  SymFile* s = symfs_make('a', 512);
  int n = (int)symx_pick("len", 1, FMAX), n2 = (int)symx_pick("len2", 1, 2);
  int vp9 = (int)symx_pick("vp9", 0, 1);
  uint8_t* d = (uint8_t*)malloc(n + n2);
  symx_bytes(d, n + n2, "payload");
  if (vp9) symx_assume((d[n + n2 - 1] & 0xE0) != 0xC0);
  static const int64_t NS[8] = {0, 1000000000, 33366666, 11111, 11112, 47721858844444, 95443717688888, 3599999999999};
  int np = 0;
  for (int i = 0; i < 2; i++) {
    const uint8_t* q = i ? d + n : d;
    int m = i ? n2 : n;
    int64_t ns = NS[symx_pick("ns", 0, i ? 0 : NSN)];
    VideoFrame f(ns, vp9 ? VideoFrame::kVP9 : VideoFrame::kVP8);
    CHECK(f.Init(m));
    memcpy(f.buffer().data.get(), q, m);
    CHECK(f.SetBufferLength(m));
    int64_t ticks = NanosecondsTo90KhzTicks(ns);
    CHECKM(ticks * 100000 - ns * 9 <= 100000 && ns * 9 - ticks * 100000 <= 100000, "clock conversion within one tick");
    int64_t back = Khz90TicksToNanoseconds(ticks);
    CHECKM(back - ns <= 11112 && ns - back <= 11112, "clock conversion back within one tick");
    PacketDataBuffer b;
    bool ok = Webm2Pes::WritePesPacket(f, &b);
    // superframe: the frames are converted one by one, the index is dropped
    uint8_t mk = q[m - 1];
    if (vp9 && (mk & 0xE0) == 0xC0) {
      int cnt = (int)symx_concretize((mk & 7) + 1), mag = (int)symx_concretize(((mk >> 3) & 3) + 1), isz = 2 + cnt * mag;
      bool good = isz <= m && q[m - isz] == mk;
      size_t off = 0;
      Fr loc[8];
      for (int k = 0; good && k < cnt; k++) {
        uint64_t sz = 0;
        for (int j = 0; j < mag; j++) sz |= (uint64_t)q[m - isz + 1 + k * mag + j] << (8 * j);
        if (sz == 0 || off + sz > (size_t)(m - isz)) { good = false; break; }
        sz = symx_concretize(sz);
        loc[k] = {q + off, (size_t)sz, (uint64_t)ticks};
        off += sz;
      }
      CHECKM(ok == good, "a superframe is converted exactly when its index is sound");
      if (good) { for (int k = 0; k < cnt; k++) fr[nf++] = loc[k]; np += cnt; symx_reach("superframe"); }
    } else {
      CHECKM(ok, "every frame is converted");
      expect(q, m, (uint64_t)ticks);
      np++;
    }
    if (!ok) { symx_reach("refused"); symx_stop(); }
    putFile(s, b);
  }
  if (nf) readBack(s, np);
  free(d);
#elif MODE == 2  // frames around and above the packet payload limit
  static const int L[5] = {32768, 32769, 32771, 32767, 65540};
  int n = L[symx_pick("len", 0, LN)];
  SymFile* s = symfs_make('a', n + 400);
  uint8_t* d = (uint8_t*)malloc(n);
  for (int i = 0; i < n; i++) d[i] = (uint8_t)(0x80 | (i * 7));
  int edge = 32768;
  // free bytes: around the fragment border and at the end
  static uint8_t x[8];
  symx_bytes(x, EDGE, "edge");
  int at = symx_pick("where", 0, 1) && n > 32769 ? n - EDGE : edge - EDGE / 2 - 1;
  for (int i = 0; i < EDGE; i++) if (at + i < n) d[at + i] = x[i];
  VideoFrame f(1000000000, VideoFrame::kVP8);
  CHECK(f.Init(n));
  memcpy(f.buffer().data.get(), d, n);
  CHECK(f.SetBufferLength(n));
  PacketDataBuffer b;
  CHECK(Webm2Pes::WritePesPacket(f, &b));
  putFile(s, b);
  expect(d, n, 90000);
  readBack(s, (n + 32767) / 32768);
  free(d);
  if (n > 32768) symx_reach("fragmented");
#elif MODE == 3  // a whole file: the video track's frames, in order, and nothing else
  symfs_make('a', 600);
  SymFile* w = symfs_make('c', 400);
  uint8_t* b = w->data;
  int n = 0;
  auto put = [&](std::initializer_list<int> l) { for (int v : l) b[n++] = (uint8_t)v; };
  int order = (int)symx_pick("order", 0, 2);  // 0: video only, 1: audio before video, 2: video before audio
  uint8_t vnum = (uint8_t)symx_pick("vnum", 1, 3), anum = (uint8_t)symx_pick("anum", 1, 3);
  symx_assume(vnum != anum);
  int vp9 = (int)symx_pick("vp9", 0, 1);
  put({0x1A, 0x45, 0xDF, 0xA3, 0x8B, 0x42, 0x86, 0x81, 1, 0x42, 0x82, 0x84, 'w', 'e', 'b', 'm'});
  put({0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF});
  put({0x15, 0x49, 0xA9, 0x66, 0x87, 0x2A, 0xD7, 0xB1, 0x83, 0x0F, 0x42, 0x40});
  int tl = order == 0 ? 29 : 29 + 27;
  put({0x16, 0x54, 0xAE, 0x6B, 0x80 | tl});
  for (int k = 0; k < 2; k++) {
    bool video = order == 1 ? k == 1 : k == 0;
    if (!video && order == 0) continue;
    if (video) put({0xAE, 0x80 | 27, 0xD7, 0x81, vnum, 0x73, 0xC5, 0x81, 1, 0x83, 0x81, 1, 0x86, 0x85, 'V', '_', 'V', 'P', vp9 ? '9' : '8', 0xE0, 0x88, 0xB0, 0x82, 1, 64, 0xBA, 0x82, 1, 0});
    else put({0xAE, 0x80 | 25, 0xD7, 0x81, anum, 0x73, 0xC5, 0x81, 2, 0x83, 0x81, 2, 0x86, 0x88, 'A', '_', 'V', 'O', 'R', 'B', 'I', 'S', 0xE1, 0x83, 0x9F, 0x81, 2});
  }
  static uint8_t pay[12];
  symx_bytes(pay, 12, "pay");
  for (int i = 0; i < 12; i++) symx_assume(pay[i] >= 4);  // escaping is covered by the other units
  int at = 0;
  for (int c = 0; c < 2; c++) {
    int tc = c ? 500 : 7;
    put({0x1F, 0x43, 0xB6, 0x75, 0x80 | (4 + 8 + 8), 0xE7, 0x82, tc >> 8, tc & 255});
    for (int k = 0; k < 2; k++) {
      int who = (int)symx_pick("who", 0, 1);  // video or other track
      if (who && order == 0) who = 0;
      put({0xA3, 0x80 | 6, 0x80 | (who ? anum : vnum), 0, k * 20, 0x80});
      b[n++] = pay[at];
      b[n++] = pay[at + 1];
      if (!who) {
        if (vp9) symx_assume((pay[at + 1] & 0xE0) != 0xC0);
        expect(pay + at, 2, (uint64_t)NanosecondsTo90KhzTicks((tc + k * 20) * 1000000ll));
      }
      at += 2;
    }
  }
  w->len = n;
  bool toFile = symx_pick("tofile", 0, 1);
  if (toFile) {
    Webm2Pes conv("c", "a");
    CHECKM(conv.ConvertToFile(), "a well-formed file converts");
    CHECK(conv.bytes_written() == symfs_get('a')->len);
  } else {
    struct Sink : PacketReceiverInterface {
      bool ReceivePacket(const PacketDataBuffer& p) override { putFile(symfs_get('a'), p); return true; }
    } sink;
    Webm2Pes conv("c", &sink);
    CHECKM(conv.ConvertToPacketReceiver(), "a well-formed file converts");
  }
  symfs_get('a')->exists = true;
  if (nf) readBack(symfs_get('a'), nf);
  else CHECK(symfs_get('a')->len == 0);
  symx_reach(toFile ? "file" : "sink");
#endif
}
