#include <stdlib.h>
#include <string.h>
#include "common/vp9_header_parser.h"
#include "symx.h"
using vp9_parser::Vp9HeaderParser;
// Independent reading of the VP9 uncompressed header (VP9 bitstream specification, section 6.2).
struct Ref {
  const uint8_t* d;
  int nbits, at = 0;
  bool over = false, ok = false;
  int profile = 0, show_existing = 0, key = 0, show = 0, err_res = 0, intra = 0;
  int bit_depth = 0, cs = 0, w = 0, h = 0, dw = 0, dh = 0, refresh = 0, rows = 0, cols = 0, par = 0;
  bool have_size = false, have_tiles = false, have_color = false, have_par = false, have_refresh = false;
  int bit() {
    if (at >= nbits) { over = true; return 0; }
    int b = (d[at >> 3] >> (7 - (at & 7))) & 1;
    at++;
    return b;
  }
  int lit(int n) { int v = 0; while (n--) v = v * 2 + bit(); return v; }
  bool sync() { return lit(24) == 0x498342; }
  void color() {
    have_color = true;
    bit_depth = profile >= 2 ? (bit() ? 12 : 10) : 8;
    cs = lit(3);
    if (cs != 7) { bit(); if (profile & 1) { bit(); bit(); bit(); } }
    else if (profile & 1) bit();
  }
  void size() {
    have_size = true;
    w = lit(16) + 1;
    h = lit(16) + 1;
    dw = w;
    dh = h;
    if (bit()) { dw = lit(16) + 1; dh = lit(16) + 1; }
  }
  void deltaq() { if (bit()) lit(4); }
  void run() {
    if (lit(2) != 2) return;
    int lo = bit(), hi = bit();
    profile = hi * 2 + lo;
    if (profile == 3) profile += bit();
    show_existing = bit();
    if (show_existing) { ok = !over; return; }
    key = !bit();
    show = bit();
    err_res = bit();
    if (key) {
      if (!sync()) return;
      color();
      size();
      have_par = true;
      if (err_res) par = 1; else { bit(); par = bit(); }
      lit(2);                       // frame_context_idx
      lit(6); lit(3);               // loop filter level, sharpness
      if (bit() && bit()) for (int i = 0; i < 6; i++) if (bit()) lit(7);
      lit(8); deltaq(); deltaq(); deltaq();
      if (!bit()) {                 // no segmentation
        have_tiles = true;
        int sb = (w + 63) / 64;
        int lo2 = 0, hi2 = 1;
        while ((64 << lo2) < sb) lo2++;
        while ((sb >> hi2) >= 4) hi2++;
        hi2--;
        int t = lo2;
        while (t < hi2 && bit()) t++;
        cols = 1 << t;
        int r = bit();
        if (r) r += bit();
        rows = 1 << r;
      }
    } else {
      intra = show ? 0 : bit();
      if (!err_res) lit(2);
      if (intra) {
        if (!sync()) return;
        if (profile > 0) color(); else { have_color = true; bit_depth = 8; cs = 1; }
        have_refresh = true;
        refresh = lit(8);
        size();
      } else {
        have_refresh = true;
        refresh = lit(8);
        for (int i = 0; i < 3; i++) lit(4);
        bool found = false;
        for (int i = 0; i < 3 && !found; i++) found = bit();
        if (!found) size();
      }
    }
    ok = !over;
  }
};
extern "C" void symx_main() {
  int len = (int)symx_pick("len", LMIN, LMAX);
  uint8_t* d = (uint8_t*)malloc(len ? len : 1);
  symx_bytes(d, len, "frame");
#if KIND == 0
  if (len > 0) symx_assume(((d[0] >> 2) & 1) == 1 || (d[0] >> 6) != 2 || (d[0] & 0x38) != 0);  // everything but profile-0 key frames
#elif KIND == 1
  if (len > 0) symx_assume((d[0] & 0xFC) == 0x80);  // key frame, profile 0
  if (len > 3) symx_assume(d[1] == 0x49 && d[2] == 0x83 && d[3] == 0x42);
  if (len > 6) symx_assume((d[4] & 0x0F) == 0 && (d[5] & 0xE0) == 0);  // width < 512
#elif KIND == 2  // profile-0 error-resilient key frame of any width: tiling arithmetic
  symx_assume((d[0] & 0xFD) == 0x81 && d[1] == 0x49 && d[2] == 0x83 && d[3] == 0x42);
  symx_assume((d[4] >> 5) != 7 && (d[8] & 8) == 0 && (d[10] & 0x80) == 0 && (d[11] & 0x70) == 0);
#endif
  Vp9HeaderParser p;
  bool used = REUSE && symx_bool("used");
  if (used) {
    static const uint8_t first[] = {0x82, 0x49, 0x83, 0x42, 0x20, 0x13, 0xf0, 0x0e, 0xf6, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0};
    CHECK(p.ParseUncompressedHeader(first, sizeof first));
    CHECK(p.width() == 0x140 && p.height() == 0xf0);
  }
  int w0 = p.width(), h0 = p.height(), dw0 = p.display_width(), dh0 = p.display_height();
  bool ok = p.ParseUncompressedHeader(d, len);
  Ref r;
  r.d = d;
  r.nbits = len * 8;
  r.run();
  CHECKM(ok == r.ok, "success is reported exactly for complete headers with marker and sync code");
  if (ok && r.ok) {
    symx_reach("ok");
    CHECK(p.profile() == r.profile);
    CHECK(p.frame_size() == (size_t)len);
    if (r.show_existing) symx_reach("existing");
    else {
      CHECK(p.key() == r.key);
      CHECK(p.altref() == !r.show);
      CHECK(p.error_resilient_mode() == r.err_res);
      if (r.have_color) { CHECK(p.bit_depth() == r.bit_depth); CHECK(p.color_space() == r.cs); }
      if (r.have_size) { CHECK(p.width() == r.w && p.height() == r.h); CHECK(p.display_width() == r.dw && p.display_height() == r.dh); }
      else { CHECK(p.width() == w0 && p.height() == h0 && p.display_width() == dw0 && p.display_height() == dh0); symx_reach("same-size"); }
      if (r.have_par) CHECK(p.frame_parallel_mode() == r.par);
      if (r.have_refresh) CHECK(p.refresh_frame_flags() == r.refresh);
      if (r.have_tiles) { CHECK(p.row_tiles() == r.rows); CHECK(p.column_tiles() == r.cols); symx_reach("tiles"); }
      if (r.key) symx_reach("key");
      if (r.intra) symx_reach("intra");
    }
  } else symx_reach("fail");
  free(d);
  CHECK(!p.ParseUncompressedHeader(nullptr, 5));
}
