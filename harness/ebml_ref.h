// Reference EBML decoding used as oracle (independent of /repo's code).
#ifndef EBML_REF_H_
#define EBML_REF_H_
#include "symx.h"
namespace ref {
// number of bytes announced by a first byte (0 if invalid)
static inline int vlen(uint8_t b) {
  if (b & 0x80) return 1;
  if (b & 0x40) return 2;
  if (b & 0x20) return 3;
  if (b & 0x10) return 4;
  if (b & 0x08) return 5;
  if (b & 0x04) return 6;
  if (b & 0x02) return 7;
  if (b & 0x01) return 8;
  return 0;
}
static inline uint64_t be(const uint8_t* p, int n) {
  uint64_t v = 0;
  for (int i = 0; i < n; i++) v = (v << 8) | p[i];
  return v;
}
static inline uint64_t vint(const uint8_t* p, int n) { return be(p, n) & ((1ull << (7 * n)) - 1); }
static inline bool unknown(const uint8_t* p, int n) { return vint(p, n) == (1ull << (7 * n)) - 1; }
static inline int64_t sbe(const uint8_t* p, int n) {
  if (n == 0) return 0;
  uint64_t v = be(p, n);
  if (n < 8 && (p[0] & 0x80)) v |= ~0ull << (8 * n);
  return (int64_t)v;
}
// is v a legal EBML identifier (1 to 4 bytes incl. marker)
static inline int idlen(uint32_t v) {
  if (v >= 0x81 && v <= 0xFE) return 1;
  if (v >= 0x407F && v <= 0x7FFE) return 2;
  if (v >= 0x203FFF && v <= 0x3FFFFE) return 3;
  if (v >= 0x101FFFFF && v <= 0x1FFFFFFE) return 4;
  return 0;
}
static inline int ulen(uint64_t v) { int n = 1; while (n < 8 && (v >> (8 * n))) n++; return n; }
static inline int slen(int64_t v) {
  int n = 1;
  while (n < 8) { int64_t lim = 1ll << (8 * n - 1); if (v >= -lim && v < lim) return n; n++; }
  return 8;
}
struct Elem { uint32_t id; int idn; uint64_t size; int sizen; int64_t start, data, end; bool unk; };
// Parses the element at [pos,end) of p; lengths are decided per path.
static inline bool elem(const uint8_t* p, int64_t pos, int64_t end, Elem* e) {
  if (pos >= end) return false;
  int a = (int)symx_concretize(vlen(p[pos]));
  if (a < 1 || a > 4 || pos + a > end) return false;
  e->idn = a;
  e->id = (uint32_t)be(p + pos, a);
  if (pos + a >= end) return false;
  int b = (int)symx_concretize(vlen(p[pos + a]));
  if (b < 1 || pos + a + b > end) return false;
  e->sizen = b;
  e->size = vint(p + pos + a, b);
  e->unk = unknown(p + pos + a, b);
  e->start = pos;
  e->data = pos + a + b;
  e->end = e->unk ? end : e->data + (int64_t)e->size;
  return true;
}
}  // namespace ref
#endif
