// Independent reading of what the muxer wrote: a tree of elements whose declared sizes must
// tile, from which expectations are taken one by one until nothing is left.
#pragma once
#include <string.h>
#include "ebml_ref.h"
#ifndef MAXNODES
#define MAXNODES 160
#endif
struct Tree {
  struct Node { uint32_t id; int parent; int64_t pos, data, end; bool taken, master, unk; };
  Node nd[MAXNODES];
  int n = 0;
  const uint8_t* p;
  int64_t lim;
  static bool isMaster(uint32_t id) {
    static const uint32_t m[] = {0x1A45DFA3, 0x18538067, 0x114D9B74, 0x4DBB, 0x1549A966, 0x1F43B675, 0xA0, 0x75A1, 0xA6, 0x1654AE6B, 0xAE, 0xE0, 0xE1, 0x55B0, 0x55D0, 0x7670,
                                 0x6D80, 0x6240, 0x5035, 0x47E7, 0x1C53BB6B, 0xBB, 0xB7, 0x1043A770, 0x45B9, 0xB6, 0x80, 0x1254C367, 0x7373, 0x63C0, 0x67C8};
    for (uint32_t x : m) if (x == id) return true;
    return false;
  }
  // cluster and segment of unknown size end at the next element of their level
  void walk(int parent, int64_t pos, int64_t end, bool open = false, int64_t* stop = nullptr) {
    while (pos < end) {
      ref::Elem e;
      bool ok = ref::elem(p, pos, end, &e);
      CHECKM(ok, "every element header lies inside its parent");
      if (!ok) symx_stop();
      if (open && (e.id == 0x1F43B675 || e.id == 0x1C53BB6B || e.id == 0x1254C367 || e.id == 0x1043A770)) break;
      if (!e.unk) {
        CHECKM(e.size <= (uint64_t)(end - e.data), "every element ends inside its parent");
        symx_assume(e.size <= (uint64_t)(end - e.data));
        e.end = e.data + (int64_t)symx_concretize(e.size);
      }
      CHECKM(n < MAXNODES, "harness: nodes");
      int k = n++;
      e.id = (uint32_t)symx_concretize(e.id);
      nd[k] = {e.id, parent, pos, e.data, e.end, false, isMaster(e.id), e.unk};
      if (nd[k].master) {
        int64_t at = e.end;
        walk(k, e.data, e.end, e.unk && e.id == 0x1F43B675, &at);
        if (e.unk) nd[k].end = at;
      } else CHECKM(!e.unk, "only containers may be of unknown size");
      pos = nd[k].end;
    }
    if (stop) *stop = pos;
    else CHECKM(pos == end, "children fill their parent");
  }
  void read(const uint8_t* buf, int64_t from, int64_t to) { p = buf; lim = to; n = 0; walk(-1, from, to); }
  // first child not yet accounted for
  int find(int parent, uint32_t id) { for (int i = 0; i < n; i++) if (nd[i].parent == parent && nd[i].id == id && !nd[i].taken) return i; return -1; }
  int take(int parent, uint32_t id) {
    int k = find(parent, id);
    CHECKM(k >= 0, "an expected element is there");
    if (k < 0) symx_stop();
    nd[k].taken = true;
    return k;
  }
  uint64_t uv(int k) { int64_t l = nd[k].end - nd[k].data; CHECKM(l >= 1 && l <= 8, "integer of 1 to 8 bytes"); return ref::be(p + nd[k].data, (int)l); }
  void u(int parent, uint32_t id, uint64_t v) { CHECKM(uv(take(parent, id)) == v, "stored integer"); }
  void opt_u(int parent, uint32_t id, bool there, uint64_t v) { if (there) u(parent, id, v); }
  void f4(int parent, uint32_t id, float v) {
    int k = take(parent, id);
    uint32_t b;
    memcpy(&b, &v, 4);
    CHECKM(nd[k].end - nd[k].data == 4 && ref::be(p + nd[k].data, 4) == b, "stored float");
  }
  void bytes(int parent, uint32_t id, const void* v, int64_t len) {
    int k = take(parent, id);
    CHECKM(nd[k].end - nd[k].data == len, "stored length");
    for (int64_t i = 0; i < len; i++) CHECKM(p[nd[k].data + i] == ((const uint8_t*)v)[i], "stored bytes");
  }
  void str(int parent, uint32_t id, const char* v) { bytes(parent, id, v, (int64_t)strlen(v)); }
  void empty() { for (int i = 0; i < n; i++) CHECKM(nd[i].taken, "nothing else is stored"); }
};
