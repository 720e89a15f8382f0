// Generator of WebM containers with solver-chosen children and payloads.
#pragma once
#include "ebml_ref.h"
#include "webm_src.h"
#include "webm_dom.h"
#include "webm/callback.h"
#include "webm/webm_parser.h"
using namespace webm;
static uint8_t f[900];
static int n = 0;
static void put_id(uint32_t v) { int l = v > 0xFFFFFF ? 4 : v > 0xFFFF ? 3 : v > 0xFF ? 2 : 1; while (l--) f[n++] = (uint8_t)(v >> (8 * l)); }
#ifndef MAXITEMS
#define MAXITEMS 4
#endif
static bool all = false;  // every child once instead of a choice
struct Item { uint32_t id; int kind, at, len, child; };
struct Inst { Item it[MAXITEMS]; int n; };
static Inst inst[64];
static int ninst = 0;
#ifndef NI
#define NI 2
#endif
#ifndef ROOTS
#define ROOTS 1
#endif
#ifdef PATH
static const uint32_t path[] = {PATH, 0};
#else
static const uint32_t path[] = {0};
#endif
static int level = 0;  // containers below the forced path
typedef void (*Gen)(int, int, int);
struct Collect {
  uint32_t id_[24]; int kind[24]; Gen gen[24]; int n = 0;
  void add(uint32_t i, int k, Gen g = nullptr) { id_[n] = i; kind[n] = k; gen[n] = g; n++; }
  template <class T> void uint(uint32_t i, const Element<T>*, uint64_t) { add(i, dom::UINT); }
  template <class T> void uint_like(uint32_t i, const Element<T>*, uint32_t) { add(i, dom::UINT); }
  void uints(uint32_t i, const std::vector<Element<uint64_t>>*) { add(i, dom::UINT); }
  void sint(uint32_t i, const Element<int64_t>*, int64_t) { add(i, dom::SINT); }
  void sints(uint32_t i, const std::vector<Element<int64_t>>*) { add(i, dom::SINT); }
  void flt(uint32_t i, const Element<double>*, double) { add(i, dom::FLT); }
  void flt_like(uint32_t i, const Element<double>*, uint32_t, double) { add(i, dom::FLT); }
  void date(uint32_t i, const Element<int64_t>*) { add(i, dom::DATE); }
  void str(uint32_t i, const Element<std::string>*, const char*) { add(i, dom::STR); }
  void strs(uint32_t i, const std::vector<Element<std::string>>*, const char*, bool) { add(i, dom::STR); }
  void bin(uint32_t i, const Element<std::vector<uint8_t>>*) { add(i, dom::BIN); }
  void flag(uint32_t i, const Element<bool>*, int) { add(i, dom::BOOL); }
  void id(uint32_t i, const Element<Id>*) { add(i, dom::IDK); }
  void block(uint32_t i, const Element<Block>*) { add(i, dom::BLK); }
  void sblocks(uint32_t i, const std::vector<Element<SimpleBlock>>*) { add(i, dom::SBLK); }
  void vblock(uint32_t i, const Element<VirtualBlock>*) { add(i, dom::VBLK); }
  template <class T> void sub(uint32_t i, const Element<T>*);
  template <class T> void reps(uint32_t i, const std::vector<Element<T>>*);
};
// depth: containers on the forced path still to go through; items: children to choose
template <class T> void gen(int me, int depth, int items) {
  Collect c;
  dom::fields(c, (const T*)nullptr);
  Inst& x = inst[me];
  x.n = 0;
  bool forced = path[depth] != 0;
  if (!forced && level >= 2) items = 0;
  if (all && level > 5) return;
  for (int i = 0; i < (all ? c.n : forced ? 1 : items); i++) {
    int k;
    if (all) { k = i; if (c.kind[k] == dom::MASTER && c.gen[k] == (Gen)::gen<T>) continue; } else  // once, not recursively
    if (forced) { for (k = 0; k < c.n && c.id_[k] != path[depth]; k++) {} CHECKM(k < c.n, "harness path"); }
    else { k = (int)symx_pick("child", 0, c.n); if (k == c.n) break; }
    Item& t = x.it[x.n++];
    t.id = c.id_[k]; t.kind = c.kind[k]; t.child = -1;
    put_id(t.id);
    int at = n++;
    if (all && t.kind == dom::MASTER) n++;
    t.at = n;
    bool again = false;
    for (int j = 0; j + 1 < x.n; j++) again |= x.it[j].id == t.id;
    bool small = (i > 0 && !again) || all;
    switch (t.kind) {
      case dom::UINT: case dom::SINT: t.len = small ? 2 : (int)symx_pick("len", 0, 1) * 3; break;
      case dom::FLT: t.len = small ? 4 : (int)symx_pick("len", 0, 2) * 4; break;
      case dom::DATE: t.len = all ? 8 : (int)symx_pick("len", 0, 1) * 8; break;
      case dom::STR: case dom::BIN: t.len = small ? 1 : (int)symx_pick("len", 0, 1) * 2; break;
      case dom::BOOL: t.len = all ? 1 : (int)symx_pick("len", 0, 1); break;
      case dom::IDK: t.len = all ? 3 : (int)symx_pick("len", 1, 4); break;
      case dom::SBLK: case dom::BLK: case dom::VBLK: t.len = all ? 7 : 5; break;
      default: t.len = 0;
    }
    if (t.kind == dom::MASTER) {
      t.child = ninst++;
      CHECKM(ninst <= 64, "harness instances");
      if (!forced) level++;
      if (all) {
        c.gen[k](t.child, depth, items);
        level--;
        f[at] = 0x40 | (n - at - 2) >> 8; f[at + 1] = (uint8_t)(n - at - 2);
        continue;
      }
      c.gen[k](t.child, forced ? depth + 1 : depth, forced ? items : 1);
      if (!forced) level--;
      f[at] = 0x80 | (n - at - 1);
      continue;
    }
    f[at] = 0x80 | t.len;
    for (int j = 0; j < t.len; j++) {
      uint8_t b = symx_u8("v");
      if (t.kind == dom::STR) symx_assume(b != 0);
      if (t.kind == dom::BOOL) symx_assume(b < 2);
      if (t.kind == dom::IDK && j == 0) symx_assume(ref::vlen(b) == t.len);
      if (t.kind == dom::SBLK || t.kind == dom::BLK || t.kind == dom::VBLK) {
        if (j == 0) symx_assume(b & 0x80);
        if (j == 3) symx_assume((b & 6) == 0);
      }
      f[n++] = b;
    }
    if (t.kind == dom::IDK) symx_assume(ref::idlen((uint32_t)ref::be(f + t.at, t.len)) == t.len);
  }
}
template <class T> void Collect::sub(uint32_t i, const Element<T>*) { add(i, dom::MASTER, ::gen<T>); }
template <class T> void Collect::reps(uint32_t i, const std::vector<Element<T>>*) { add(i, dom::MASTER, ::gen<T>); }
#if ROOT == 0
typedef Ebml RootT; static const uint32_t rootId = 0x1A45DFA3, wrap[] = {0};
#elif ROOT == 1
typedef Info RootT; static const uint32_t rootId = 0x1549A966, wrap[] = {0x18538067, 0};
#elif ROOT == 2
typedef Seek RootT; static const uint32_t rootId = 0x4DBB, wrap[] = {0x18538067, 0x114D9B74, 0};
#elif ROOT == 3
typedef Cluster RootT; static const uint32_t rootId = 0x1F43B675, wrap[] = {0x18538067, 0};
#elif ROOT == 4
typedef BlockGroup RootT; static const uint32_t rootId = 0xA0, wrap[] = {0x18538067, 0x1F43B675, 0};
#elif ROOT == 5
typedef TrackEntry RootT; static const uint32_t rootId = 0xAE, wrap[] = {0x18538067, 0x1654AE6B, 0};
#elif ROOT == 6
typedef CuePoint RootT; static const uint32_t rootId = 0xBB, wrap[] = {0x18538067, 0x1C53BB6B, 0};
#elif ROOT == 7
typedef EditionEntry RootT; static const uint32_t rootId = 0x45B9, wrap[] = {0x18538067, 0x1043A770, 0};
#elif ROOT == 8
typedef Tag RootT; static const uint32_t rootId = 0x7373, wrap[] = {0x18538067, 0x1254C367, 0};
#endif
