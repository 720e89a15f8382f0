// Arbitrary bytes after a structured prefix, arbitrary client reactions and input failures:
// no memory error, no abort, no leak, no endless loop, and a verdict is kept.
#define MAXEV 60
#include "webm_ref.h"
using namespace webm;
static uint8_t f[80];
static int n = 0;
static void id(uint32_t v) { int l = v > 0xFFFFFF ? 4 : v > 0xFFFF ? 3 : v > 0xFF ? 2 : 1; while (l--) f[n++] = (uint8_t)(v >> (8 * l)); }
static const uint32_t pre[] = {PRE};
#ifdef IDS
static const uint32_t ids[] = {IDS};
#endif
struct ErrReader : SrcReader {
  int64_t fail_at = -1;
  int fail_code = 0;
  bool failed = false, once = false;
  using SrcReader::SrcReader;
  bool fail(Status* s, uint64_t* got) {
    if (fail_at < 0 || (uint64_t)fail_at != pos || (once && failed)) return false;
    failed = true; calls++; *got = 0; *s = Status(fail_code);
    return true;
  }
  uint64_t cap(uint64_t k) { return fail_at >= 0 && !(once && failed) && pos < (uint64_t)fail_at && pos + k > (uint64_t)fail_at ? (uint64_t)fail_at - pos : k; }
  Status part(Status s, uint64_t k, uint64_t want) { return s.completed_ok() && k < want ? Status(Status::kOkPartial) : s; }
  Status Read(size_t k, uint8_t* out, uint64_t* got) override { Status s; if (fail(&s, got)) return s; uint64_t c = cap(k); return part(take(c, out, got), c, k); }
  Status Skip(uint64_t k, uint64_t* got) override { Status s; if (fail(&s, got)) return s; uint64_t c = cap(k); return part(take(c, nullptr, got), c, k); }
};
static void run(WebmParser& p);
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    WebmParser p;
    run(p);
  }
  CHECKM(symx_live() == live0, "no leak");
}
static void run(WebmParser& p) {
  for (uint32_t v : pre) if (v) { id(v); f[n++] = 0xFF; }
#ifdef IDS
  for (int e = 0; e < ELEMS; e++) {
    id(ids[symx_pick("id", 0, sizeof ids / sizeof ids[0] - 1)]);
    // size: unknown, up to 10 bytes, or from 2^20 bytes up
    int k = (int)symx_pick("size", 0, 12);
    if (k <= 10) f[n++] = 0x80 | k;
    else if (k == 11) f[n++] = 0xFF;
    else { f[n++] = 0x01; int at = n; for (int i = 0; i < 7; i++) f[n++] = symx_u8("size"); symx_assume(ref::be(f + at, 7) >= 1 << 20); }
  }
#endif
  for (int i = 0; i < FREEB; i++) f[n++] = symx_u8("b");
  ErrReader r(f, n);
  r.lazy = true;
  Rec cb;
#if REACT  // the client: reads or leaves content, stops with any status at any event, skips any element
  cb.content = symx_bool("content");
  int k = (int)symx_pick("react", 0, 3);
  if (k == 1) { cb.err_at = (int)symx_pick("err_at", 0, 5); cb.err_code = (int)symx_u32("code"); symx_assume(cb.err_code != 0 && cb.err_code != Status::kSwitchToSkip /* reserved */); }
  if (k == 2) cb.pause_at = (int)symx_pick("pause_at", 0, 5);
  if (k == 3) cb.skips = 1u << symx_pick("skip_at", 0, 5);
#endif
#if RFAIL
  r.fail_at = (int64_t)symx_pick("fail_at", 0, n);
  r.fail_code = (int)symx_u32("rcode");
  r.once = symx_bool("once");
  symx_assume(r.fail_code != 0 && r.fail_code != Status::kOkPartial && r.fail_code != Status::kSwitchToSkip);
#endif
  Status st = p.Feed(&cb, &r);
  for (int round = 0; round < 3; round++) {
    uint64_t calls = r.calls;
    int evs = cb.calls;
    Status s2 = p.Feed(&cb, &r);
    if (st.is_parsing_error()) {
      CHECKM(s2.code == st.code, "a parse error stays");
      CHECKM(r.calls == calls && cb.calls == evs, "a parse error needs no further input");
      symx_reach("error");
      break;
    }
    if (st.completed_ok()) { CHECKM(s2.completed_ok(), "the end of the document stays"); symx_reach("end"); break; }
    symx_reach("resumed");
    st = s2;
  }
  if (cb.paused) symx_reach("paused");
}
