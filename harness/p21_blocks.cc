// Block decoding by the incremental parser, through the public parser.
#ifndef NCUT
#define NCUT 1
#endif
#include "webm_events.h"
#include "lace_ref.h"
using namespace webm;
#ifndef BIG
#define BIG 0
#endif
static uint8_t f[200];
static int B;  // first byte of the block payload
static void put(const void* p, int n) { memcpy(f + B, p, n); B += n; }
extern "C" void symx_main() {
  static const uint8_t head[] = {0x18, 0x53, 0x80, 0x67, 0xFF, 0x1F, 0x43, 0xB6, 0x75, 0xFF, 0xE7, 0x81, 0x05};
  put(head, sizeof head);
  int kind = KIND;
#if BIG  // block much larger than the data that is looked at; it ends the stream
  static const int64_t sizes[] = {260, 65536 + 6, (1ll << 56) - 80, 519, 2147483648ll + 6, 261, 1ll << 40, 4294967296ll + 7, 65535 + 6, 259, 262, 515};
  int64_t size = sizes[symx_pick("size", 0, NSIZES - 1)];
  const int H = 9;
  f[B++] = 0xA3; f[B++] = 1;
  for (int i = 6; i >= 0; i--) f[B++] = (uint8_t)(size >> (8 * i));
  symx_bytes(f + B, 5 + BIG, "block");
  int64_t end = B + size;
#else
  int size = (int)symx_pick("size", SZMIN, SZMAX);
  const int H = 2;
  if (kind == 0) { f[B++] = 0xA3; f[B++] = 0x80 | size; }
  else { f[B++] = 0xA0; f[B++] = 0x80 | (size + 2 + 3); f[B++] = kind == 1 ? 0xA1 : 0xA2; f[B++] = 0x80 | size; }
  symx_bytes(f + B, size, "block");
#endif
#ifdef LACING
  symx_assume((f[B] & 0x80) != 0);
  if (size > 3) symx_assume(((f[B + 3] >> 1) & 3) == LACING);
#endif
#ifdef MAXN
  if (size > 4) symx_assume(f[B + 4] <= MAXN);
#endif
#if !BIG
  int end = B + size;
  if (kind) { f[end++] = 0x9B; f[end++] = 0x81; f[end++] = 0x07; }
  f[end] = 0xEC; f[end + 1] = 0x81; f[end + 2] = 0x11;
#endif
  ref::Lace l;
  memset(&l, 0, sizeof l);
  ref::lace(f + B, size, &l);
  int64_t live0 = symx_live();
  {
    SrcReader r(f, BIG ? end : end + 3);
    if (!BIG) r.schedule(); else r.lazy = true;
    r.base = BASE;
    Rec cb;
    WebmParser p;
    Status st(Status::kWouldBlock);
    for (int i = 0; i <= NCUT && st.code == Status::kWouldBlock; i++) st = p.Feed(&cb, &r);
    CHECK(st.code != Status::kWouldBlock && st.code != Status::kOkPartial);
    int i = 0, want = kind == 0 ? K_SBB : K_BB;
    while (i < cb.n && cb.ev[i].kind != want && !(cb.ev[i].kind == K_BEGIN && cb.ev[i].pos == BASE + (uint64_t)B - H)) i++;
    CHECKM(i < cb.n, "the block element is announced");
    CHECK(cb.ev[i].kind == K_BEGIN && cb.ev[i].size == (uint64_t)size && cb.ev[i].hdr == H);
    i++;
    int hl = size > 0 ? (int)symx_concretize(ref::vlen(f[B])) : 0;
    if (kind == 2) {
      bool fits = hl > 0 && hl + 3 <= size;
      if (!fits) { CHECKM(!st.ok() , "a virtual block without room for its header is refused"); symx_reach("rejected"); return; }
      CHECKM(st.completed_ok(), "a virtual block is accepted");
      int g = i;
      while (g < cb.n && cb.ev[g].kind != K_BGE) g++;
      CHECK(g < cb.n);
      CHECKM(cb.ev[g].v[3] == l.track + 1 && cb.ev[g].v[4] == (uint64_t)(int64_t)l.time, "virtual block fields");
      CHECKM(cb.ev[g].v[1] == 7 && cb.ev[g].v[2] == 1, "the element after the virtual block");
      symx_reach("virtual");
    } else {
      if (i < cb.n && cb.ev[i].kind == K_CLB) i++;
      bool begun = i < cb.n && cb.ev[i].kind == want;
      bool must = l.ok, may = l.ok || l.empty || l.single;
      if (st.completed_ok()) {
        CHECKM(may, "an accepted block is well formed");
        CHECK(begun);
      } else {
        CHECKM(!must, "a well-formed block is accepted");
        CHECKM(st.is_parsing_error() || st.code == Status::kEndOfFile, "refusal status");
        symx_reach("rejected");
      }
      if (begun) CHECKM(hl > 0 && hl + 3 <= size, "a reported block has room for its header");
      if (begun) {
        const Ev& e = cb.ev[i];
        CHECK(e.v[0] == l.track && e.v[1] == (uint64_t)(int64_t)l.time);
        CHECK(e.v[3] == (uint64_t)(l.flags & 6) && e.v[4] == ((l.flags & 8) == 0));
        if (kind == 0) CHECK(e.v[5] == (uint64_t)((l.flags >> 7) * 2 + (l.flags & 1)));
        if (l.lacing == 0) CHECK(e.v[2] == 1);
        else CHECK(e.v[2] == (uint64_t)f[B + hl + 3] + 1);
        CHECK(e.pos == BASE + (uint64_t)B - H && e.hdr == H && e.size == (uint64_t)size);
      }
      uint64_t at = 0;
      int nf = 0;
      for (int k = i + 1; k < cb.n; k++) {
        const Ev& e = cb.ev[k];
        if (e.kind != K_FRAME) continue;
        CHECKM(e.pos >= BASE + (uint64_t)B && e.size <= (uint64_t)size && e.pos + e.size <= BASE + (uint64_t)(B + size), "frames stay inside the block");
        CHECKM(!nf || e.pos == at, "frames are consecutive");
        CHECKM(e.v[2] == e.pos + e.size, "a frame is read where it lies");
        CHECK(e.v[0] == (uint64_t)size && e.v[1] == BASE + (uint64_t)B - H);
        if (l.ok || l.empty) CHECKM(nf < l.n && e.pos == BASE + (uint64_t)(B + l.pos[nf]) && e.size == (uint64_t)l.len[nf], "frame sizes are those declared");
        at = e.pos + e.size;
        nf++;
      }
      if (st.completed_ok()) {
        CHECKM(at == BASE + (uint64_t)(B + size), "frames fill the block");
        if (l.ok) CHECK(nf == l.n);
        int z = 0;
        for (int k = i; k < cb.n; k++) if (cb.ev[k].kind == (kind == 0 ? K_SBE : K_BE)) { z++; CHECK(cb.ev[k].v[0] == l.track && cb.ev[k].v[1] == (uint64_t)(int64_t)l.time && cb.ev[k].v[2] == (uint64_t)nf); }
        CHECKM(z == 1, "one end event");
        int v = i;
        while (v < cb.n && cb.ev[v].kind != K_VOID) v++;
        if (!BIG) CHECKM(v < cb.n && cb.ev[v].pos == BASE + (uint64_t)end && cb.ev[v].size == 1, "the element after the block");
        if (l.lacing == 0) symx_reach("unlaced");
        if (l.lacing == 1 && nf > 1) symx_reach("xiph");
        if (l.lacing == 2 && nf > 1) symx_reach("fixed");
        if (l.lacing == 3 && nf > 1) symx_reach("ebml");
      }
    }
  }
  CHECK(symx_live() == live0);
}
