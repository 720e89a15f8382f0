#include <queue>
#include <limits>
#include <string.h>
#include "common/vp9_level_stats.h"
#include "symx.h"
using namespace vp9_parser;
// published table: level, sample rate, picture size, breadth, kbps, CPB kbit (0: no limit),
// compression ratio, column tiles, altref distance, reference frames
static const double T[14][10] = {
    {10, 829440, 36864, 512, 200, 400, 2, 1, 4, 8},        {11, 2764800, 73728, 768, 800, 1000, 2, 1, 4, 8},
    {20, 4608000, 122880, 960, 1800, 1500, 2, 1, 4, 8},    {21, 9216000, 245760, 1344, 3600, 2800, 2, 2, 4, 8},
    {30, 20736000, 552960, 2048, 7200, 6000, 2, 4, 4, 8},  {31, 36864000, 983040, 2752, 12000, 10000, 2, 4, 4, 8},
    {40, 83558400, 2228224, 4160, 18000, 16000, 4, 4, 4, 8}, {41, 160432128, 2228224, 4160, 30000, 18000, 4, 4, 5, 6},
    {50, 311951360, 8912896, 8384, 60000, 36000, 6, 8, 6, 4}, {51, 588251136, 8912896, 8384, 120000, 46000, 8, 8, 10, 4},
    {52, 1176502272, 8912896, 8384, 180000, 0, 8, 8, 10, 4}, {60, 1176502272, 35651584, 16832, 180000, 0, 8, 16, 10, 4},
    {61, 2353004544, 35651584, 16832, 240000, 0, 8, 16, 10, 4}, {62, 4706009088, 35651584, 16832, 480000, 0, 8, 16, 10, 4}};

struct BitW {
  uint8_t b[32];
  int n = 0;
  BitW() { memset(b, 0, sizeof b); }
  void put(unsigned v, int bits) {
    for (int i = bits - 1; i >= 0; i--, n++) b[n >> 3] |= ((v >> i) & 1) << (7 - (n & 7));
  }
};
struct Fr { int64_t t; int64_t w, h, size; int tiles, alt, key, refresh, depth; };
static Fr fr[8];
static int nf = 0;
static Vp9HeaderParser p;

// tile column choice: `extra` more than the minimum for the width
static void keyFrame(int w, int h, int extra, bool shown, uint64_t size, int64_t t, Vp9LevelStats* st) {
  BitW b;
  b.put(2, 2); b.put(0, 2); b.put(0, 1); b.put(0, 1); b.put(shown, 1); b.put(1, 1);
  b.put(0x498342, 24);
  b.put(1, 3); b.put(0, 1);
  b.put(w - 1, 16); b.put(h - 1, 16); b.put(0, 1);
  b.put(0, 2); b.put(0, 9); b.put(0, 1); b.put(0, 8); b.put(0, 3); b.put(0, 1);
  for (int i = 0; i < extra; i++) b.put(1, 1);
  b.put(0, 2);
  CHECK(p.ParseUncompressedHeader(b.b, size));
  st->AddFrame(p, t);
  fr[nf++] = {t, w, h, (int64_t)size, p.column_tiles(), !shown, 1, 0, 8};
}
static void interFrame(bool shown, int refresh, uint64_t size, int64_t t, Vp9LevelStats* st) {
  BitW b;
  b.put(2, 2); b.put(0, 2); b.put(0, 1); b.put(1, 1); b.put(shown, 1); b.put(1, 1);
  if (!shown) b.put(0, 1);
  b.put(refresh, 8); b.put(0, 12); b.put(1, 1);
  CHECK(p.ParseUncompressedHeader(b.b, size));
  st->AddFrame(p, t);
  fr[nf] = fr[nf - 1];
  Fr& f = fr[nf++];
  f.t = t; f.size = size; f.alt = !shown; f.key = 0; f.refresh = refresh;
}
static int64_t mx(int64_t a, int64_t b) { return a > b ? a : b; }

static void judge(const Vp9LevelStats& st, int64_t duration, bool estimate) {
  int64_t pic = 0, br = 0, rate = 0, cpb = 0, total = 0, raw = 0;
  int tiles = 0, refs = 0, used = 0, dist = -1, since = 0, shown = 0;
  bool alt = false;
  for (int i = 0; i < nf; i++) {
    const Fr& f = fr[i];
    pic = mx(pic, f.w * f.h);
    br = mx(br, mx(f.w, f.h));
    int64_t win = 0;
    for (int j = 0; j <= i; j++) if (fr[j].t > f.t - 1000000000) win += fr[j].w * fr[j].h;
    rate = mx(rate, win);
    int64_t c = 0;
    for (int j = i; j >= 0 && j > i - 4; j--) c += fr[j].size;
    cpb = mx(cpb, c);
    total += f.size;
    if (f.alt) {
      if (alt && (dist < 0 || since < dist)) dist = since;
      alt = true;
      since = 0;
    } else {
      since++;
      shown++;
      raw += f.w * f.h * f.depth * 3 / 2;
    }
    if (f.key) used = 0;
    else {
      used |= f.refresh;
      int n = 0;
      for (int k = 0; k < 8; k++) n += (used >> k) & 1;
      if (n > refs) refs = n;
    }
    if (f.tiles > tiles) tiles = f.tiles;
  }
  CHECK(st.GetMaxLumaPictureSize() == pic);
  CHECK(st.GetMaxLumaPictureBreadth() == br);
  CHECK(st.GetMaxLumaSampleRate() == rate);
  CHECK(st.GetMaxColumnTiles() == tiles);
  CHECK(st.GetMaxReferenceFrames() == refs);
  CHECK(st.GetMinimumAltrefDistance() == dist);
  int64_t span = fr[nf - 1].t - fr[0].t;
  double sec = (duration < 0 ? span : duration) / 1000000000.0;
  if (estimate && (duration < 0 || duration <= span)) sec += span / 1000000000.0 / (shown - 1);
  double kbps = total / sec / 125.0, cpbk = cpb / 125.0, ratio = raw / (double)(total * 8);
#if FPCHECK
  CHECK(st.GetMaxCpbSize() == cpbk);
  CHECK(st.GetAverageBitRate() == kbps);
  CHECK(st.GetCompressionRatio() == ratio);
#endif
  int want = 0;
  for (int i = 0; i < 14; i++) {
    if (rate <= T[i][1] * (1.5 / 100.0 + 1.0) && pic <= T[i][2] && br <= T[i][3] && kbps <= T[i][4] && (T[i][5] == 0 || cpbk <= T[i][5]) && tiles <= T[i][7]) {
      if (!(dist >= 0 && dist < T[i][8]) && !(ratio < T[i][6]) && refs <= T[i][9]) want = (int)T[i][0];
      break;
    }
  }
  // the sample-rate grace multiplies the limit; both ways of writing it agree away from the boundary
  int got = st.GetLevel();
  CHECKM(got == want, "the reported level is the lowest one whose limits hold");
  symx_reach(want ? "level" : "unknown");
}

extern "C" void symx_main() {
  Vp9LevelStats st;
  int64_t duration = -1;
  bool estimate = true;
#if MODE == 0  // dimensions of a picture, everything else small
  static const int H[6] = {1, 144, 1080, 4320, 16832, 65536};
  int w = 1 + symx_u16("w"), h = H[symx_pick("h", 0, 5)];
  if (symx_pick("portrait", 0, 1)) { int x = w; w = h; h = x; }
  int extra = 0;
  keyFrame(w, h, extra, true, 64, 0, &st);
  duration = 1000000000;
  st.set_duration(duration);
#elif MODE == 1  // frame sizes: CPB and bit rate
  int dim = (int)symx_pick("dim", 0, 2);
  static const int W[3] = {256, 1920, 8192}, H[3] = {144, 1080, 4320};
  for (int i = 0; i < NF; i++) {
#if PICKS
    static const uint64_t S[3] = {1000, 60000, 900000};
    uint64_t s = S[symx_pick("size", 0, PICKS)];
#else
    uint64_t s = 32 + symx_u32("size") % 0x2000000;
#endif
    if (i == 0) keyFrame(W[dim], H[dim], 0, true, s, 0, &st);
    else interFrame(true, 1, s, i * 250000000ll, &st);
  }
  if (symx_pick("dur", 0, 1)) { duration = 2000000000; st.set_duration(duration); }
  if (symx_pick("noest", 0, 1)) { estimate = false; st.set_estimate_last_frame_duration(false); }
#elif MODE == 2  // frame times: sample rate window
  int dim = (int)symx_pick("dim", 0, 2);
  static const int W[3] = {640, 1920, 8192}, H[3] = {480, 1080, 4320};
  int64_t t = 0;
  for (int i = 0; i < NF; i++) {
    if (i) t += 1 + symx_u32("dt");
    if (i == 0) keyFrame(W[dim], H[dim], 0, true, 100, 0, &st);
    else interFrame(true, 1, 100, t, &st);
  }
  duration = 20000000000;
  st.set_duration(duration);
#elif MODE == 3  // altref distances, reference frames, tiles
  int dim = (int)symx_pick("dim", 0, 3);
  static const int W[4] = {256, 1920, 4096, 8192}, H[4] = {144, 1080, 2304, 4320};
  int extra = (int)symx_pick("extra", 0, 1);
  if (dim == 0) extra = 0;
  int dead = 0;
  for (int i = 0; i < NF; i++) {
    bool shown = ALT ? symx_bool("shown") : true;
    if (i == 0) keyFrame(W[dim], H[dim], extra, true, 100, 0, &st);
    else if (i == 2 && symx_bool("key")) keyFrame(W[dim], H[dim], extra, shown, 100, i * 1000000000ll, &st);
    else interFrame(shown, ALT ? 1 : symx_u8("refresh"), 100, i * 1000000000ll, &st);
  }
  (void)dead;
  duration = 20000000000;
  st.set_duration(duration);
#endif
  judge(st, duration, estimate);
}
