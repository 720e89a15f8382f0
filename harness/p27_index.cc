#ifndef LMIN
#define LMIN 1
#endif
#ifndef LMAX
#define LMAX 4
#endif
#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include "common/hdr_util.h"
#include "common/libwebm_util.h"
#include "mkvparser/mkvparser.h"
#include "mkvmuxer/mkvmuxer.h"
#include "symx.h"
using namespace libwebm;

static void superframe() {
  int len = (int)symx_pick("len", LMIN, LMAX);
  uint8_t* d = (uint8_t*)malloc(len);
  symx_bytes(d, len, "frame");
#ifdef MARK
  symx_assume(d[len - 1] == (uint8_t)(0xC0 | MARK));
#endif
  Ranges r;
  bool stale = symx_pick("stale", 0, 1);
  if (stale) r.push_back(Range(3, 4));
  bool err = false;
  bool ok = ParseVP9SuperFrameIndex(d, len, &r, &err);
  uint8_t m = d[len - 1];
  bool marked = (m & 0xE0) == 0xC0;
  uint64_t n = (m & 7) + 1, mag = ((m >> 3) & 3) + 1, isz = 2 + n * mag;
  bool want = marked && isz <= (uint64_t)len && d[len - (isz <= (uint64_t)len ? isz : 1)] == m;
  uint64_t size[8], off = 0;
  if (want) {
    n = symx_concretize(n);
    mag = symx_concretize(mag);
    isz = 2 + n * mag;
    for (uint64_t i = 0; i < n && want; i++) {
      size[i] = 0;
      for (uint64_t j = 0; j < mag; j++) size[i] |= (uint64_t)d[len - isz + 1 + i * mag + j] << (8 * j);
      off += size[i];
      if (off > len - isz) want = false;
    }
  }
  CHECKM(ok == want, "an index is reported exactly when a complete one is present");
  if (!marked) { CHECKM(!err, "data without an index marker is not an error"); symx_reach("none"); }
  if (marked && !want) { CHECKM(err, "a broken index is reported as an error"); symx_reach("broken"); }
  if (ok && want) {
    CHECKM(!err, "no error with a good index");
    CHECKM(r.size() == n, "one range per frame");
    off = 0;
    for (uint64_t i = 0; i < n && i < r.size(); i++) {
      CHECK(r[i].offset == off && r[i].length == size[i]);
      CHECK(r[i].offset + r[i].length <= len - isz);
      off += size[i];
    }
    symx_reach("ranges");
  }
  free(d);
}

static void codecPrivate() {
  int len = (int)symx_pick("len", 0, LMAX);
  uint8_t* d = (uint8_t*)malloc(len ? len : 1);
  symx_bytes(d, len, "private");
  Vp9CodecFeatures f;
  bool ok = ParseVpxCodecPrivate(d, len, &f);
  const int NP = INT_MAX;
  int v[5] = {0, NP, NP, NP, NP};
  bool want = len >= 3;
  for (int i = 0; want && i + 3 <= len; i += 3) {
    int id = d[i], x = d[i + 2];
    if (id < 1 || id > 4 || d[i + 1] != 1) { want = false; break; }
    bool legal = id == 1   ? x <= 3
                 : id == 2 ? x == 10 || x == 11 || x == 20 || x == 21 || x == 30 || x == 31 || x == 40 || x == 41 || x == 50 || x == 51 || x == 52 || x == 60 || x == 61 || x == 62
                 : id == 3 ? x == 8 || x == 10 || x == 12
                           : x <= 3;
    if (!legal) { want = false; break; }
    if (v[id] != NP && v[id] != x) { want = false; break; }
    v[id] = x;
  }
  CHECKM(ok == want, "well-formed features are accepted, malformed or conflicting ones refused");
  if (ok && want) {
    CHECK(f.profile == v[1]);
    CHECK(f.level == v[2]);
    CHECK(f.bit_depth == v[3]);
    CHECK(f.chroma_subsampling == v[4]);
    symx_reach("features");
  } else symx_reach("refused");
  free(d);
  CHECK(!ParseVpxCodecPrivate(nullptr, 3, &f));
}

static bool same(float a, float b) { uint32_t x, y; memcpy(&x, &a, 4); memcpy(&y, &b, 4); return x == y; }
static float fl(const char* n) { uint32_t x = symx_u32(n); float f; memcpy(&f, &x, 4); symx_assume(f == f); return f; }

static void colour() {
  mkvparser::Colour c;
  const long long NP = mkvparser::Colour::kValueNotPresent;
  const uint64_t MNP = mkvmuxer::Colour::kValueNotPresent;
  long long* f[13] = {&c.matrix_coefficients, &c.bits_per_channel, &c.chroma_subsampling_horz, &c.chroma_subsampling_vert, &c.cb_subsampling_horz,
                      &c.cb_subsampling_vert, &c.chroma_siting_horz, &c.chroma_siting_vert, &c.range, &c.transfer_characteristics, &c.primaries, &c.max_cll, &c.max_fall};
  int absent = (int)symx_pick("absent", 0, 14), absent2 = (int)symx_pick("absent2", 0, 13);  // 14: all
  for (int i = 0; i < 13; i++) {
    if (i == absent || i == absent2 || absent == 14) continue;
    *f[i] = (long long)symx_u64("v");
    symx_assume(*f[i] != NP);
  }
  int shape = absent2 == 13 ? (int)symx_pick("mm", 0, 16) : 0;
  float v[10];
  static float scratch[2];
  if (shape) {
    int bits = shape - 1;
    mkvparser::MasteringMetadata* m = c.mastering_metadata = new mkvparser::MasteringMetadata;
    for (int i = 0; i < 10; i++) v[i] = fl("f");
    m->luminance_max = v[0];
    m->luminance_min = v[1];
    mkvparser::PrimaryChromaticity** pc[4] = {&m->r, &m->g, &m->b, &m->white_point};
    for (int i = 0; i < 4; i++)
      if (bits >> i & 1) { *pc[i] = new mkvparser::PrimaryChromaticity; (*pc[i])->x = v[2 + 2 * i]; (*pc[i])->y = v[3 + 2 * i]; }
  }
  mkvmuxer::Colour o;
  CHECK(CopyColour(c, &o));
  uint64_t got[13] = {o.matrix_coefficients(), o.bits_per_channel(), o.chroma_subsampling_horz(), o.chroma_subsampling_vert(), o.cb_subsampling_horz(),
                      o.cb_subsampling_vert(), o.chroma_siting_horz(), o.chroma_siting_vert(), o.range(), o.transfer_characteristics(), o.primaries(), o.max_cll(), o.max_fall()};
  for (int i = 0; i < 13; i++) CHECK(got[i] == (*f[i] == NP ? MNP : (uint64_t)*f[i]));
  CHECK((o.mastering_metadata() != nullptr) == (shape != 0));
  if (shape && o.mastering_metadata()) {
    const mkvmuxer::MasteringMetadata* m = o.mastering_metadata();
    int bits = shape - 1;
    const float PN = mkvparser::MasteringMetadata::kValueNotPresent, MN = mkvmuxer::MasteringMetadata::kValueNotPresent;
    CHECK(same(m->luminance_max(), v[0] == PN ? MN : v[0]));
    CHECK(same(m->luminance_min(), v[1] == PN ? MN : v[1]));
    const mkvmuxer::PrimaryChromaticity* pc[4] = {m->r(), m->g(), m->b(), m->white_point()};
    for (int i = 0; i < 4; i++) {
      CHECK((pc[i] != nullptr) == (bits >> i & 1));
      if (pc[i] && (bits >> i & 1)) { CHECK(same(pc[i]->x(), v[2 + 2 * i])); CHECK(same(pc[i]->y(), v[3 + 2 * i])); }
    }
    symx_reach("mastering");
  }
  symx_reach("colour");
  CHECK(!CopyColour(c, nullptr));
}

extern "C" void symx_main() {
#if MODE == 0
  int64_t live = symx_live();
  superframe();
  CHECK(symx_live() == live);
#elif MODE == 1
  codecPrivate();
#else
  int64_t live = symx_live();
  colour();
  CHECK(symx_live() == live);
  uint8_t b[2];
  symx_bytes(b, 2, "b");
  CHECK(ReadUint16(b) == b[0] * 256 + b[1]);
#endif
}
