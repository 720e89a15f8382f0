// Reference walk over a WebM document: the events the incremental parser has to deliver.
// Independent of /repo's code: derived from the element hierarchy of the format and the
// callback documentation.
#pragma once
#include "ebml_ref.h"
#include "webm_events.h"
namespace ref {
enum T { MASTER, UINT, SINT, STR, BLOCK };
struct Row { uint32_t id, parent; T t; };
static const uint32_t EBML = 0x1A45DFA3, SEG = 0x18538067, CLU = 0x1F43B675, BG = 0xA0, SB = 0xA3, BLK = 0xA1, VOID_ = 0xEC, INFO = 0x1549A966, SH = 0x114D9B74, SEEK = 0x4DBB,
  TRKS = 0x1654AE6B, TE = 0xAE, VID = 0xE0, CUES = 0x1C53BB6B, CP = 0xBB, CTP = 0xB7, TAGS = 0x1254C367, TAG = 0x7373, ST = 0x67C8, CHAPS = 0x1043A770, EDN = 0x45B9, ATOM = 0xB6;
static const Row rows[] = {
  {0x4286, EBML, UINT}, {0x4287, EBML, UINT}, {0x4282, EBML, STR},
  {INFO, SEG, MASTER}, {0x2AD7B1, INFO, UINT}, {0x7BA9, INFO, STR},
  {SH, SEG, MASTER}, {SEEK, SH, MASTER}, {0x53AC, SEEK, UINT},
  {CLU, SEG, MASTER}, {0xE7, CLU, UINT}, {0xAB, CLU, UINT}, {SB, CLU, BLOCK}, {BG, CLU, MASTER},
  {BLK, BG, BLOCK}, {0x9B, BG, UINT}, {0xFB, BG, SINT},
  {TRKS, SEG, MASTER}, {TE, TRKS, MASTER}, {0xD7, TE, UINT}, {0x86, TE, STR}, {VID, TE, MASTER}, {0xB0, VID, UINT},
  {CUES, SEG, MASTER}, {CP, CUES, MASTER}, {0xB3, CP, UINT}, {CTP, CP, MASTER}, {0xF1, CTP, UINT},
  {TAGS, SEG, MASTER}, {TAG, TAGS, MASTER}, {ST, TAG, MASTER}, {ST, ST, MASTER}, {0x45A3, ST, STR},
  {CHAPS, SEG, MASTER}, {EDN, CHAPS, MASTER}, {ATOM, EDN, MASTER}, {ATOM, ATOM, MASTER}, {0x73C4, ATOM, UINT},
};
static const Row* row(uint32_t parent, uint32_t id) {
  for (const Row& r : rows) if (r.parent == parent && r.id == id) return &r;
  return nullptr;
}
struct El { uint32_t id; uint64_t hdr, size; bool unk; int64_t pos, data; };
struct Vals {  // what a container's own event reports
  uint64_t v[6];
  bool started;
};
static const int64_t INF = 1ll << 60;
struct Walk {
  const uint8_t* p;
  int64_t n, pos = 0;
  uint64_t base = 0;
  Ev ev[MAXEV];
  int ne = 0;
  uint32_t skips = 0;
  int questions = 0;
  bool has_cached = false;
  bool undecided = false;
  El cached;
  Ev* add(int kind, const El& e) {
    CHECKM(ne < MAXEV, "reference log full");
    Ev* x = &ev[ne++];
    memset(x, 0, sizeof *x);
    x->kind = kind; x->id = e.id; x->hdr = e.hdr; x->size = e.unk ? ~0ull : e.size; x->pos = e.pos < 0 ? ~0ull : base + (uint64_t)e.pos;
    if (e.pos < 0) x->hdr = webm::kUnknownHeaderSize;
    return x;
  }
  bool ask() { bool s = questions < 32 && (skips >> questions & 1); questions++; return s; }
  bool header(El* e) {
    if (pos >= n) return false;
    int a = (int)symx_concretize(vlen(p[pos]));
    if (a < 1 || a > 4 || pos + a >= n) return false;
    int b = (int)symx_concretize(vlen(p[pos + a]));
    if (b < 1 || pos + a + b > n) return false;
    e->id = (uint32_t)be(p + pos, a);
    e->size = vint(p + pos + a, b);
    e->unk = unknown(p + pos + a, b);
    e->hdr = a + b;
    e->pos = pos;
    pos = e->data = pos + a + b;
    return true;
  }
  bool take(const El& e) { if (e.size > (uint64_t)(n - pos)) return false; pos += (int64_t)symx_concretize(e.size); return true; }
  // all of a container's content; end: where the innermost sized container around the content ends
  bool kids(uint32_t cid, const El& c, bool known, int64_t end, bool& skip, Vals* v) {
    for (;;) {
      El e;
      if (has_cached) { e = cached; has_cached = false; }
      else {
        if (pos == end) return true;
        if (!known && pos == n) return true;
        if (!header(&e)) return false;
      }
      if (e.data > end || (!e.unk && (int64_t)e.size > end - e.data)) return false;
      const Row* r = row(cid, e.id);
      if (!r && e.id != VOID_) {
        if (!known) { cached = e; has_cached = true; return true; }
        if (e.unk) return false;
      }
      if (!one(e, r, cid, c, end, &skip, v)) return false;
    }
  }
  // content skipped only after its parser has started may be looked at or not: broken content is left undecided
  void peek(const El& e) {
    int64_t at = pos;
    Vals m;
    memset(&m, 0, sizeof m);
    bool s = true;
    if (!kids(e.id, e, true, e.data + (int64_t)e.size, s, &m)) undecided = true;
    pos = at;
    has_cached = false;
  }
  // one element; *pskip: the container is being skipped
  bool one(const El& e, const Row* r, uint32_t cid, const El& c, int64_t end, bool* pskip, Vals* v) {
    bool skip = *pskip;
    if (!skip) { add(K_BEGIN, e); skip = ask(); }
    if (skip && !e.unk) return take(e);
    if (e.id == VOID_ || !r) {
      if (e.unk) return false;
      if (!take(e)) return false;
      add(e.id == VOID_ ? K_VOID : K_UNKNOWN, e);
      return true;
    }
    if (r->t != MASTER && e.unk) return false;
    return body(e, r, cid, c, end, skip, pskip, v);
  }
  bool body(const El& e, const Row* r, uint32_t cid, const El& c, int64_t end, bool skip, bool* pskip, Vals* v) {
    if (r->t == BLOCK && e.size < 5) return false;
    if ((r->t == UINT || r->t == SINT) && e.size > 8) return false;
    // a cluster is announced at its first block
    if (cid == CLU && (e.id == SB || e.id == BG) && !v->started && !skip) {
      v->started = true;
      memcpy(add(K_CLB, c)->v, v->v, sizeof v->v);
      if (ask()) {
        *pskip = true; skip = true;
        if (e.id == BG && !e.unk) peek(e);
        if (!e.unk) return take(e);
      }
    }
    if (r->t == MASTER) return master(e, cid, end, skip, v);
    if (r->t == BLOCK) {
      Ev* x = add(e.id == SB ? K_SBB : K_BB, e);
      if (e.size > (uint64_t)(n - pos)) { if (n - pos < 4) ne--; return false; }
      const uint8_t* b = p + pos;
      uint64_t w[6] = {(uint64_t)(b[0] & 0x7F), (uint64_t)(int64_t)(int16_t)be(b + 1, 2), 1, 0, (b[3] & 8) == 0, (uint64_t)(e.id == SB ? (b[3] >> 7) * 2 + (b[3] & 1) : 0)};
      memcpy(x->v, w, sizeof w);
      if (ask()) return take(e);
      Ev* f = add(K_FRAME, e);
      f->pos = base + (uint64_t)pos + 4; f->size = e.size - 4; f->v[0] = e.size; f->v[1] = base + (uint64_t)e.pos; f->v[2] = f->pos + f->size;
      take(e);
      memcpy(add(e.id == SB ? K_SBE : K_BE, e)->v, w, sizeof w);
      if (e.id == SB) v->v[3]++;
      else v->v[0] = 1;
      return true;
    }
    int64_t at = pos;
    if (!take(e)) return false;
    int len = (int)symx_concretize(e.size);
    uint64_t x = r->t == STR ? 0 : be(p + at, len);
    set(e.id, x, len, v);
    return true;
  }
  void set(uint32_t id, uint64_t x, int len, Vals* v) {
    switch (id) {
      case 0x4286: v->v[0] = len ? x : 1; break;
      case 0x4287: v->v[1] = len ? x : 1; break;
      case 0x4282: v->v[2] = (uint64_t)strl(len, 8); break;
      case 0x2AD7B1: v->v[0] = len ? x : 1000000; v->v[1] = 1; break;
      case 0x7BA9: v->v[2] = (uint64_t)len; break;
      case 0x53AC: v->v[1] = x; break;
      case 0xE7: v->v[0] = x; v->v[1] = 1; break;
      case 0xAB: v->v[2] = x; break;
      case 0x9B: v->v[1] = x; v->v[2] = 1; break;
      case 0xFB: v->v[5]++; break;
      case 0xD7: v->v[0] = x; break;
      case 0x86: v->v[1] = (uint64_t)len; break;
      case 0xB0: v->v[2] = x; break;
      case 0xB3: v->v[0] = x; break;
      case 0xF1: v->v[2] = x; break;
    }
  }
  static int strl(int len, int) { return len; }
  bool master(const El& e, uint32_t cid, int64_t end, bool skip, Vals* pv) {
    Vals m;
    memset(&m, 0, sizeof m);
    if (e.id == INFO) m.v[0] = 1000000;
    int64_t stop = e.unk ? end : e.data + (int64_t)e.size;
    if (e.id == BG && !skip) { add(K_BGB, e); if (ask()) { skip = true; if (!e.unk) peek(e); } }
    if (skip && !e.unk) return take(e);
    if (!kids(e.id, e, !e.unk, stop, skip, &m)) return false;
    return finish(e, cid, skip, &m, pv);
  }
  // nested value containers hand their value on, others report it
  bool finish(const El& e, uint32_t cid, bool skip, Vals* m, Vals* pv) {
    if (skip) return true;
    int k = 0;
    switch (e.id) {
      case EBML: k = K_EBML; break;
      case INFO: k = K_INFO; break;
      case SEEK: k = K_SEEK; break;
      case BG: k = K_BGE; pv->v[4]++; break;
      case TE: k = K_TRACK; break;
      case VID: pv->v[2] = m->v[2]; break;
      case CP: k = K_CUE; break;
      case CTP: if (!pv->v[1]) pv->v[2] = m->v[2]; pv->v[1]++; break;
      case EDN: k = K_EDITION; break;
      case ATOM: if (cid == EDN) pv->v[0]++; break;
      case TAG: k = K_TAG; break;
      case ST: if (cid == TAG) pv->v[0]++; break;
      case CLU:
        if (!m->started) { memcpy(add(K_CLB, e)->v, m->v, sizeof m->v); if (ask()) return true; }
        k = K_CLE;
        break;
    }
    if (k) memcpy(add(k, e)->v, m->v, sizeof m->v);
    return true;
  }
  bool top(const El& e) {
    El none;
    memset(&none, 0, sizeof none);
    add(K_BEGIN, e);
    bool skip = ask();
    if (skip && !e.unk) return take(e);
    if (e.id == SEG) {
      if (!skip) { add(K_SEGB, e); if (ask()) { skip = true; if (!e.unk) peek(e); } }
      Vals m;
      memset(&m, 0, sizeof m);
      if (!kids(SEG, e, !e.unk, e.unk ? INF : e.data + (int64_t)e.size, skip, &m)) return false;
      if (!skip) add(K_SEGE, e);
      return true;
    }
    if (e.id == EBML) {
      Vals m, x;
      memset(&m, 0, sizeof m);
      m.v[0] = m.v[1] = 1;
      m.v[2] = 8;
      if (!kids(EBML, e, !e.unk, e.unk ? INF : e.data + (int64_t)e.size, skip, &m)) return false;
      return finish(e, 0, skip, &m, &x);
    }
    if (e.unk) return false;
    if (!take(e)) return false;
    add(e.id == VOID_ ? K_VOID : K_UNKNOWN, e);
    return true;
  }
  // the enclosing containers of an element resumed at: unsized, without place, already begun
  bool resumed(const uint32_t* chain, int i, int nc, const El& e, uint32_t cid, Vals* pv) {
    El a;
    memset(&a, 0, sizeof a);
    a.id = chain[i]; a.unk = true; a.pos = -1;
    Vals m;
    memset(&m, 0, sizeof m);
    if (a.id == INFO) m.v[0] = 1000000;
    if (a.id == EBML) { m.v[0] = m.v[1] = 1; m.v[2] = 8; }
    m.started = true;
    if (i + 1 < nc) { if (!resumed(chain, i + 1, nc, e, a.id, &m)) return false; }
    else { cached = e; has_cached = true; }
    bool s = false;
    if (!kids(a.id, a, false, INF, s, &m)) return false;
    if (a.id == SEG) { add(K_SEGE, a); return true; }
    return finish(a, cid, false, &m, pv);
  }
  bool did_seek = false;
  bool document() {
    for (;;) {
      El e;
      if (has_cached) { e = cached; has_cached = false; }
      else {
        if (pos == n) return true;
        if (!header(&e)) return false;
      }
      if (e.id == SEG || e.id == EBML) did_seek = false;
      if (did_seek) {
        uint32_t chain[12], up = e.id;
        int nc = 0;
        for (;;) {
          const Row* r = nullptr;
          for (const Row& x : rows) if (x.id == up && x.parent != up) { r = &x; break; }
          if (!r) break;
          for (int i = nc++; i > 0; i--) chain[i] = chain[i - 1];
          chain[0] = up = r->parent;
        }
        if (nc) {
          did_seek = false;
          Vals v;
          memset(&v, 0, sizeof v);
          if (!resumed(chain, 0, nc, e, 0, &v)) return false;
          continue;
        }
      }
      if (e.unk && e.id != SEG && e.id != EBML && e.id != VOID_) return false;  // refused before it is announced
      if (!top(e)) return false;
    }
  }
};
}  // namespace ref
