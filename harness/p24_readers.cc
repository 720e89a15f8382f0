#include <stdlib.h>
#include <string.h>
#include <limits.h>
#include <vector>
#include "mkvparser/mkvreader.h"
#include "webm/buffer_reader.h"
#include "webm/callback.h"
#include "webm/file_reader.h"
#include "symx.h"
#define NCUT 3
#include "webm_src.h"
using namespace webm;
static uint8_t buf[64];

// A sequence of reads and skips on a source holding d[0..n); passes: skips may pass the end (seekable file)
static void drive(Reader* r, const uint8_t* d, uint64_t n, bool seeks, bool shorts, SymFile* s) {
  uint64_t pos = 0;
  CHECK(r->Position() == 0);
  for (int k = 0; k < OPS; k++) {
    bool skip = symx_pick("skip", 0, 1);
    static const uint64_t BIG[3] = {1500, (uint64_t)LONG_MAX, UINT64_MAX};
    uint64_t want = symx_pick("want", 1, NMAX + (skip ? 3 : 1));
    if (want > NMAX + 1 && skip) want = BIG[want == NMAX + 2 ? 0 : symx_pick("big", 1, 2)];
    uint64_t got = 77;
    memset(buf, 0x5A, sizeof buf);
    Status st = skip ? r->Skip(want, &got) : r->Read((size_t)want, buf, &got);
    uint64_t left = pos < n ? n - pos : 0;
    if (skip && seeks) {
      CHECKM(st.code == (got == want ? Status::kOkCompleted : Status::kOkPartial) || (st.code == Status::kEndOfFile && got == 0 && left < want), "skip status matches the count");
      CHECKM(got <= want && got >= (want < left ? want : left), "a skip covers at least the data present");
      symx_reach("seek-skip");
    } else {
      uint64_t full = want < left ? want : left;
      if (!shorts || skip) CHECKM(got == full, "exactly the requested data up to the end is delivered");
      else CHECKM(got <= full && (got > 0) == (full > 0), "data is delivered while there is any");
      int code = got == 0 ? Status::kEndOfFile : got == want ? Status::kOkCompleted : Status::kOkPartial;
      CHECKM(st.code == code, "completed, partial and end of data are told apart");
      symx_reach(code == Status::kEndOfFile ? "eof" : code == Status::kOkPartial ? "partial" : "complete");
    }
    if (!skip) {
      for (uint64_t i = 0; i < got && i < sizeof buf; i++) CHECKM(pos + i < n && buf[i] == d[pos + i], "bytes arrive in order without gap or repetition");
      for (uint64_t i = got; i < sizeof buf; i++) CHECKM(buf[i] == 0x5A, "nothing beyond the delivered bytes is written");
    }
    pos += got;
    CHECKM(r->Position() == pos, "the position equals the number of bytes consumed");
    if (pos > (1ull << 62)) return;
  }
}

#if MODE == 4  // long skips
extern "C" void symx_main() {
  static const uint64_t N[3] = {1024, 1500, 2060}, W[8] = {1023, 1024, 1025, 1499, 1500, 2047, 2048, 2049};
  uint64_t n = N[symx_pick("n", 0, 2)], pos = 0;
  SymFile* s = symfs_make('a', n);
  for (uint64_t i = 0; i < n; i++) s->data[i] = (uint8_t)(i ^ (i >> 8) * 37);
  s->len = n;
  s->no_seek = true;
  s->cut = symx_pick("cut", 0, 1) ? 1000 : 0;
  FileReader r(fopen("a", "rb"));
  for (int k = 0; k < 2; k++) {
    uint64_t want = W[symx_pick("want", 0, 7)], got = 0, full = want < n - pos ? want : n - pos;
    Status st = r.Skip(want, &got);
    CHECKM(got == full, "a pipe is skipped up to the request or its end");
    CHECK(st.code == (got == 0 ? Status::kEndOfFile : got == want ? Status::kOkCompleted : Status::kOkPartial));
    pos += got;
    CHECK(r.Position() == pos && s->pos == pos);
  }
  symx_reach("done");
}
#else
extern "C" void symx_main() {
  uint64_t n = symx_pick("n", 0, NMAX);
  static uint8_t d[64];
  symx_bytes(d, n, "data");
#if MODE == 0
  std::vector<uint8_t> v(d, d + n);
  BufferReader r(v);
  drive(&r, d, n, false, false, nullptr);
#elif MODE == 1
  SymFile* s = symfs_make('a', n);
  memcpy(s->data, d, n);
  s->len = n;
  s->no_seek = symx_pick("pipe", 0, 1);
  s->cut = symx_pick("cut", 0, n ? n - 1 : 0);
  {
    FileReader r(fopen("a", "rb"));
    drive(&r, d, n, !s->no_seek, s->cut != 0, s);
    if (!s->no_seek) {
      uint64_t to = symx_pick("to", 0, NMAX);
      s->cut = 0;
      CHECK(r.Seek(to).completed_ok() && r.Position() == to);
      uint64_t got = 9;
      Status st = r.Read(2, buf, &got);
      uint64_t full = to >= n ? 0 : n - to < 2 ? n - to : 2;
      CHECK(got == full && r.Position() == to + full);
      CHECK(st.code == (full == 2 ? Status::kOkCompleted : full ? Status::kOkPartial : Status::kEndOfFile));
      for (uint64_t i = 0; i < full; i++) CHECK(buf[i] == d[to + i]);
    }
    symx_reach(s->no_seek ? "pipe" : "file");
  }
  CHECKM(s->closes == 1, "the file is closed once");
  FileReader none;
  uint64_t got = 5;
  CHECK(none.Read(1, buf, &got).code == Status::kEndOfFile && got == 0);
  got = 5;
  CHECK(none.Skip(1, &got).code == Status::kEndOfFile && got == 0);
#elif MODE == 2
  SymFile* s = symfs_make('a', n);
  memcpy(s->data, d, n);
  s->len = n;
  bool own = symx_pick("own", 0, 1);
  FILE* f = own ? nullptr : fopen("a", "rb");
  {
    mkvparser::MkvReader a, b(f);
    mkvparser::MkvReader& r = own ? a : b;
    if (own) { CHECK(r.Read(0, 1, buf) < 0); CHECK(r.Open("x") < 0); CHECK(r.Open(nullptr) < 0); CHECK(r.Open("a") == 0); CHECK(r.Open("a") < 0); }
    long long total = -5, avail = -5;
    CHECK(r.Length(&total, &avail) == 0 && total == (long long)n && avail == (long long)n);
    CHECK(r.Length(nullptr, nullptr) == 0);
    for (int k = 0; k < OPS; k++) {
      long long off = (long long)symx_u64("off");
      long len = (long)symx_concretize(symx_pick("len", 0, NMAX + 2)) - 1;
      bool far = symx_pick("far", 0, 1);
      if (far) symx_assume(off < 0 || off > (long long)NMAX);
      else { symx_assume(off >= 0 && off <= (long long)NMAX); off = (long long)symx_concretize((uint64_t)off); }
      memset(buf, 0x5A, sizeof buf);
      int st = r.Read(off, len, buf);
      bool want = off >= 0 && len >= 0 && (len == 0 || (off < (long long)n && len <= (long long)n - off));
      CHECKM((st == 0) == want, "a read succeeds exactly when the requested range lies inside the file");
      if (st == 0 && want) { for (long i = 0; i < len; i++) CHECK(buf[i] == d[off + i]); symx_reach("range"); }
      else { CHECKM(st < 0, "failures are negative"); symx_reach("refused"); }
      for (long i = len < 0 ? 0 : len; i < 64; i++) CHECK(buf[i] == 0x5A);
    }
  }
  CHECKM(s->closes == (own ? 1 : 0), "an owned file is closed once, a borrowed one never");
#else
  SrcReader r(d, n);
  r.schedule();
  Callback cb;
  ElementMetadata m = {};
  FrameMetadata fm = {};
  uint64_t left = symx_pick("ask", 0, NMAX + 1), ask = left;
  int which = (int)symx_pick("which", 0, 2);
  Status st;
  int calls = 0;
  do {
    uint64_t before = left, p0 = r.pos;
    st = which == 0 ? cb.OnUnknownElement(m, &r, &left) : which == 1 ? cb.OnVoid(m, &r, &left) : cb.OnFrame(fm, &r, &left);
    CHECKM(before - left == r.pos - p0, "the remaining count drops by exactly what was consumed");
    CHECK(st.code != Status::kOkPartial);
    calls++;
  } while (st.code == Status::kWouldBlock && calls < 6);
  CHECK(ask - left == r.pos);
  if (ask <= n) { CHECKM(st.completed_ok() && left == 0, "the default handlers skip the whole element"); symx_reach("complete"); }
  else { CHECK(st.code == Status::kEndOfFile && r.pos == n); symx_reach("eof"); }
#endif
}
#endif
