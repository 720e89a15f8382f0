// Reference decoder for Matroska block payloads.
#ifndef LACE_REF_H_
#define LACE_REF_H_
#include "ebml_ref.h"
namespace ref {
struct Lace {
  bool ok;        // well formed with only non-empty frames
  bool single;    // EBML lacing with a single frame (size field is not defined by the format)
  bool empty;     // well formed apart from empty frames
  uint64_t track; int16_t time; uint8_t flags; int lacing;
  int n; int64_t pos[64], len[64];
};
static inline void lace(const uint8_t* p, int64_t size, Lace* l) {
  l->ok = false; l->single = false; l->empty = false; l->n = 0;
  if (size < 1) return;
  int a = (int)symx_concretize(vlen(p[0]));
  if (a == 0 || a + 3 > size) return;
  l->track = vint(p, a);
  l->time = (int16_t)be(p + a, 2);
  l->flags = p[a + 2];
  l->lacing = (int)symx_concretize((l->flags >> 1) & 3);
  int64_t pos = a + 3;
  if (l->lacing == 0) {
    l->n = 1; l->pos[0] = pos; l->len[0] = size - pos;
    l->ok = size > pos; l->empty = size == pos;
    return;
  }
  if (pos >= size) return;
  int n = p[pos++] + 1;
  if (n > 1 + size - pos) { if (l->lacing != 2) return; }
  if (l->lacing == 2) {
    int64_t t = size - pos;
    if (t == 0) { l->empty = true; return; }
    if (n > t) return;
    n = (int)symx_concretize(n);
    if (t % n) return;
    l->n = n;
    for (int i = 0; i < n; i++) { l->len[i] = t / n; l->pos[i] = pos + i * (t / n); }
    l->ok = true;
    return;
  }
  n = (int)symx_concretize(n);
  int64_t sum = 0, cur = 0;
  bool zero = false;
  if (l->lacing == 3 && n == 1) l->single = true;
  for (int i = 0; i < n - 1; i++) {
    if (l->lacing == 1) {
      cur = 0;
      for (;;) {
        if (pos >= size) return;
        uint8_t v = p[pos++];
        cur += v;
        if (v != 255) break;
      }
    } else {
      if (pos >= size) return;
      int b = (int)symx_concretize(vlen(p[pos]));
      if (b == 0 || pos + b > size) return;
      uint64_t v = vint(p + pos, b);
      pos += b;
      if (i == 0) cur = (int64_t)v;
      else cur += (int64_t)v - ((1ll << (7 * b - 1)) - 1);
    }
    if (cur < 0 || cur > size) return;
    if (cur == 0) zero = true;
    l->len[i] = cur;
    sum += cur;
  }
  if (pos + sum > size) return;
  l->len[n - 1] = size - pos - sum;
  if (l->len[n - 1] == 0) zero = true;
  l->n = n;
  for (int i = 0; i < n; i++) { l->pos[i] = pos; pos += l->len[i]; }
  if (zero) l->empty = true;
  else l->ok = true;
}
}  // namespace ref
#endif
