// Documents made of solver-chosen elements; events compared with the reference walk.
#ifndef NCUT
#define NCUT 0
#endif
#include "webm_ref.h"
using namespace webm;
static uint8_t f[160];
static int n = 0;
static void id(uint32_t v) { int l = v > 0xFFFFFF ? 4 : v > 0xFFFF ? 3 : v > 0xFF ? 2 : 1; while (l--) f[n++] = (uint8_t)(v >> (8 * l)); }
#ifdef RESUME  // no unknown elements: they end what is resumed in
#define UNKNOWN_ 0xEC
#else
#define UNKNOWN_ 0x4FFF
#endif
#if PAL == 0
static const uint32_t pal[] = {ref::CLU, 0xE7, ref::SB, ref::BG, ref::BLK, ref::VOID_, 0xBF, ref::CUES, 0x9B};
#elif PAL == 1
static const uint32_t pal[] = {ref::INFO, 0x2AD7B1, ref::TRKS, ref::TE, 0xD7, ref::VID, 0xB0, ref::VOID_, UNKNOWN_};
#elif PAL == 2
static const uint32_t pal[] = {ref::SH, ref::SEEK, 0x53AC, ref::CUES, ref::CP, 0xB3, ref::CTP, 0xF1};
#elif PAL == 3
static const uint32_t pal[] = {ref::TAGS, ref::TAG, ref::ST, ref::ST, 0x45A3, ref::CHAPS, ref::EDN, ref::ATOM, 0x73C4};
#elif PAL == 4
static const uint32_t pal[] = {ref::EBML, 0x4286, ref::SEG, ref::VOID_, UNKNOWN_, ref::CLU, 0xE7, ref::SB};
#endif
static bool isMaster(uint32_t v) { for (const ref::Row& r : ref::rows) if (r.parent == v) return true; return false; }
#ifndef FREE
#define FREE 0
#endif
static int size_at[NI + 8], nm = 0, bound[NI + 8], nbound = 0;
static void item(uint32_t v, int maxsize) {
  id(v);
  if (isMaster(v)) {
#if FREE
    uint8_t s = symx_u8("csize");
    symx_assume(s <= maxsize || s == 0x7F);
    f[n++] = 0x80 | s;
#else
    size_at[nm++] = n++;
#endif
  } else if (v == ref::SB || v == ref::BLK) {
    f[n++] = 0x85;
    f[n++] = 0x80 | (symx_u8("track") & 0x07);
    f[n++] = symx_u8("t") & 0x0F; f[n++] = symx_u8("t") & 0x0F;
    f[n++] = symx_u8("flags") & 0x89;
    f[n++] = 0x42;
  } else {
    int s = (int)symx_pick("lsize", 0, 1);
    f[n++] = 0x80 | s;
    for (int i = 0; i < s; i++) { uint8_t c = symx_u8("leaf"); f[n++] = c ? c : 1; }
  }
}
// container sizes: unknown, ending at the end of any later item, or one byte past the last
static void sizes() {
  for (int i = 0; i < nm; i++) {
    int b = size_at[i] + 1, c[NI + 10], k = 0;
    c[k++] = 0x7F;
#ifndef SIZES_OK
    c[k++] = 0;
#endif
    for (int j = 0; j < nbound; j++) if (bound[j] > b) c[k++] = bound[j] - b;
#ifndef SIZES_OK
    c[k++] = n - b + 1;
#endif
    f[size_at[i]] = 0x80 | (uint8_t)c[symx_pick("csize", 0, k - 1)];
  }
}
static void run(WebmParser& p, WebmParser& q);
static void resume(WebmParser& p);
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    WebmParser p;  // built before anything is chosen, so that all paths share it
#ifdef DELIV
    WebmParser q;
    run(p, q);
#else
    run(p, p);
#endif
  }
  CHECK(symx_live() == live0);
}
static void run(WebmParser& p, WebmParser& q) {
#if PAL < 4
  id(ref::SEG);
#if !FREE
  size_at[nm++] = n++;
#else
  { uint8_t s = symx_u8("segsize"); symx_assume(s <= NI * 7 + 8 || s == 0x7F); f[n++] = 0x80 | s; }
#endif
#endif
#ifdef PRE
  { static const uint32_t pre[] = {PRE}; for (uint32_t v : pre) { item(v, 5 * NI + 12); bound[nbound++] = n; } }
#endif
  const int NP = sizeof(pal) / sizeof(pal[0]);
  for (int i = 0; i < NI; i++) {
    int k = (int)symx_pick("item", 0, NP);
    if (k == NP) break;
    item(pal[k], 5 * (NI - i) + 3);
    bound[nbound++] = n;
  }
#if !FREE
  sizes();
#endif
#ifdef RESUME
  resume(p);
}
static bool isPad(const Ev& e) { return e.id == ref::VOID_; }
static void resume(WebmParser& p) {
  ref::Walk w0, w;
  w0.p = w.p = f; w0.n = w.n = n;
  bool ok = w0.document();
  symx_assume(ok);
  // an element out of its place ends the containers resumed in, whose sizes are not known any more
  for (int i = 0; i < w0.ne; i++) symx_assume(w0.ev[i].kind != K_UNKNOWN);
  int starts[20], ns = 0;
  for (int i = 0; i < w0.ne; i++) if (w0.ev[i].kind == K_BEGIN) starts[ns++] = (int)w0.ev[i].pos;
  symx_assume(ns > 0);
  int at = starts[symx_pick("at", 0, ns - 1)];
  w.pos = at;
  w.did_seek = true;
  bool wok = w.document();
  SrcReader r(f, n);
  Rec cb;
  int before = (int)symx_pick("before", 0, n);  // how much was parsed before the seek
  if (before) {
    Rec old;
    SrcReader r0(f, before);
    r0.end_code = symx_bool("eof") ? Status::kEndOfFile : symx_bool("broken") ? Status::kInvalidElementValue : Status::kWouldBlock;
    p.Feed(&old, &r0);
    symx_reach("mid-parse");
  }
  p.DidSeek();
  r.pos = at;
  Status st = p.Feed(&cb, &r);
  CHECKM(st.completed_ok() == wok, "resuming at an element succeeds");
  CHECKM(wok, "resuming in a well-formed document");
  CHECKM(r.pos == (uint64_t)n, "all is consumed");
  CHECKM(cb.n == w.ne, "number of events after the seek");
  for (int i = 0; i < cb.n; i++) CHECKM(sameEv(cb.ev[i], w.ev[i]), "event after the seek");
  // all that lies behind the seek position is reported as in a straight read
  // (padding may count as inside or behind an element that ends there)
  for (int pads = 0; pads < 2; pads++) {
    int k = 0;
    for (int i = 0; i < cb.n; i++) {
      if (cb.ev[i].pos == ~0ull) { symx_reach("enclosing"); continue; }
      if (isPad(cb.ev[i]) != pads) continue;
      while (k < w0.ne && ((int64_t)w0.ev[k].pos < at || isPad(w0.ev[k]) != pads)) k++;
      CHECKM(k < w0.ne, "no more than in a straight read");
      CHECKM(sameEv(cb.ev[i], w0.ev[k]), "same event as in a straight read");
      k++;
    }
    while (k < w0.ne && ((int64_t)w0.ev[k].pos < at || isPad(w0.ev[k]) != pads)) k++;
    CHECKM(k == w0.ne, "no less than in a straight read");
  }
  symx_reach("resumed");
}
#else
  ref::Walk w;
  w.p = f; w.n = n;
#ifdef SKIPS
  w.skips = (uint32_t)symx_pick("skips", 0, (1 << SKIPS) - 1);
#endif
#ifdef SKIPN  // SKIPN of the first SKIPQ questions are answered with skip
  for (int i = 0; i < SKIPN; i++) { int q = (int)symx_pick("skip", 0, SKIPQ); if (q < SKIPQ) w.skips |= 1u << q; }
#endif
  bool ok = w.document();
#ifdef SIZES_OK
  symx_assume(ok);
#endif
  symx_assume(!w.undecided);
#ifdef SKIPN  // no use in skipping what is never asked
  symx_assume(w.questions >= SKIPQ || (w.skips >> w.questions) == 0);
#endif
  if (w.questions < 32 && w.skips & ((1u << w.questions) - 1)) symx_reach("skipped");
  {
    SrcReader r(f, n);
    r.schedule();
    Rec cb;
    cb.skips = w.skips;
#ifdef DELIV
    cb.content = true;
#endif
    Status st(Status::kWouldBlock);
    int feeds = 0;
    uint64_t blocked = 0;
    while (feeds++ <= NCUT && st.code == Status::kWouldBlock) { st = p.Feed(&cb, &r); if (st.code == Status::kWouldBlock) { CHECKM(r.blocked > blocked, "a pause comes from the reader"); blocked = r.blocked; } }
#ifdef DEBUG_EVENTS
    symx_debug("status", (uint64_t)(int64_t)st.code);
    for (int i = 0; i < n; i++) symx_debug("byte", f[i]);
    for (int i = 0; i < cb.n; i++) { symx_debug("got kind", cb.ev[i].kind); symx_debug("  pos", cb.ev[i].pos); symx_debug("  size", cb.ev[i].size); }
    for (int i = 0; i < w.ne; i++) { symx_debug("ref kind", w.ev[i].kind); symx_debug("  pos", w.ev[i].pos);  symx_debug("  size", w.ev[i].size);}
#endif
    CHECKM(st.code != Status::kWouldBlock && st.code != Status::kOkPartial, "no pause without cause");
    CHECKM(st.completed_ok() == ok, "documents are accepted exactly when their structure is right");
    if (ok) CHECKM(r.pos == (uint64_t)n, "all of the document is consumed");
#ifdef DELIV  // the same document undivided
    {
      SrcReader r2(f, n);
      Rec c2;
      c2.skips = w.skips;
      c2.content = true;
      Status s2 = q.Feed(&c2, &r2);
      CHECKM(s2.code == st.code, "same verdict however the input is delivered");
      CHECKM(c2.n == cb.n && r2.pos == r.pos, "same events and consumption however the input is delivered");
      for (int i = 0; i < cb.n; i++) CHECKM(sameEv(cb.ev[i], c2.ev[i]), "same event however the input is delivered");
      CHECKM(c2.nb >= cb.nb, "content");
      if (ok) CHECKM(c2.nb == cb.nb, "same content");
      for (int i = 0; i < cb.nb; i++) CHECKM(cb.bytes[i] == c2.bytes[i], "same content");
      if (r.blocked) symx_reach("paused");
    }
#endif
    int m = cb.n < w.ne ? cb.n : w.ne;
    for (int i = 0; i < m; i++) CHECKM(sameEv(cb.ev[i], w.ev[i]), "event");
    if (ok) { CHECKM(cb.n == w.ne, "number of events"); symx_reach("accepted"); }
    else symx_reach("rejected");
    for (int i = 0; i < cb.n; i++) {
      if (cb.ev[i].kind == K_CLE) symx_reach("cluster");
      if (cb.ev[i].kind == K_FRAME) symx_reach("frame");
      if (cb.ev[i].kind == K_UNKNOWN) symx_reach("unknown");
      if (i && cb.ev[i].kind == K_BEGIN && cb.ev[i].size == kUnknownElementSize && ok) symx_reach("unsized");
    }
    if (!ok) {  // the verdict is kept
      uint64_t c = r.calls;
      Status s2 = p.Feed(&cb, &r);
      if (st.is_parsing_error()) CHECKM(s2.code == st.code && r.calls == c, "a verdict is kept without touching the input");
    }
  }
}
#endif
