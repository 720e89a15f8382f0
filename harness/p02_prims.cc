#include "ebml_ref.h"
#include "mem_reader.h"
using namespace mkvparser;
#define N 16
static uint8_t d[N];
// a reader over N symbolic bytes of which `avail` are available, starting at pos;
// optionally one read fails with an arbitrary non-zero code
static MemReader* Mk(long long* pos, int* left, int minpos) {
  symx_bytes(d, N, "data");
  int avail = (int)symx_pick("avail", 0, 10);
  int p = (int)symx_pick("pos", minpos, 2);
  MemReader* r = new MemReader(d, N);
  r->total = symx_bool("live") ? -1 : N;
  r->avail = avail;
  r->refuse = symx_bool("refuse_pos") ? 1 : -1;
  *pos = p;
  *left = avail > p ? avail - p : 0;
  if (symx_bool("fails")) {
    r->fail_at = (long long)symx_pick("fail_at", 0, 8);
    r->fail_code = (int)symx_u32("code");
    symx_assume(r->fail_code != 0);
  }
  return r;
}
extern "C" void symx_main() {
  long long pos;
  int left;
  MemReader* r = Mk(&pos, &left, 0);
  const uint8_t* p = d + pos;
#if MODE == 0  // ReadUInt, GetUIntLength
  {
    long len = 77;
    long long v = ReadUInt(r, pos, len);
    int n = ref::vlen(p[0]);
    bool have = left >= 1 && n >= 1 && left >= n;
    if (v >= 0) {
      CHECK(have && !r->failed);
      n = (int)symx_concretize(n);
      CHECK(len == n);
      CHECK((uint64_t)v == ref::vint(p, n));
      symx_reach("uint");
    } else {
      CHECKM(!have || r->failed, "a complete variable-length integer is decoded");
      symx_reach("uint-error");
    }
  }
  {
    r->ops = 0;
    r->failed = false;
    long len = 77;
    long long v = GetUIntLength(r, pos, len);
    int n = ref::vlen(p[0]);
    if (left == 0) CHECKM(v == pos || v < 0 || pos >= r->avail, "asks for more data");
    else if (r->failed) CHECK(v != 0);
    else if (n == 0) CHECK(v < 0);
    else { CHECK(v == 0 && len == n); symx_reach("length"); }
  }
#elif MODE == 1  // ReadID
  long len = 77;
  long long v = ReadID(r, pos, len);
  int n = ref::vlen(p[0]);
  bool have = left >= 1 && n >= 1 && n <= 4 && left >= n;
  if (v >= 0) {
    CHECK(have && !r->failed);
    n = (int)symx_concretize(n);
    CHECK(len == n && (uint64_t)v == ref::be(p, n));
    symx_reach("id");
  } else {
    CHECKM(!have || r->failed, "a complete identifier is decoded");
    symx_reach("id-error");
  }
#elif MODE == 2  // UnserializeUInt
  int size = (int)symx_pick("size", 0, 10) - 1;
  long long v = UnserializeUInt(r, pos, size);
  bool have = size >= 1 && size <= 8 && left >= size && !r->failed;
  if (have) {
    uint64_t w = ref::be(p, size);
    // an unsigned value with bit 63 set is not representable by this interface
    CHECK((uint64_t)v == w);
    symx_reach("value");
  } else {
    CHECK(v < 0);
    symx_reach("error");
  }
#elif MODE == 3  // UnserializeInt
  int size = (int)symx_pick("size", 0, 10) - 1;
  long long v = 0x1234567;
  long s = UnserializeInt(r, pos, size, v);
  bool have = size >= 1 && size <= 8 && left >= size && !r->failed;
  if (have) {
    CHECK(s == 0);
    CHECK(v == ref::sbe(p, size));
    symx_reach("value");
  } else {
    CHECKM(s < 0, "a failed or truncated read of a signed integer is an error");
    symx_reach("error");
  }
#elif MODE == 4  // UnserializeFloat
  int size = (int)symx_pick("size", 0, 10) - 1;
  double v = 0;
  long s = UnserializeFloat(r, pos, size, v);
  bool have = (size == 4 || size == 8) && left >= size && !r->failed;
  if (have) {
    double w;
    bool fin;
    if (size == 4) {
      uint32_t b = (uint32_t)ref::be(p, 4);
      float f;
      memcpy(&f, &b, 4);
      w = f;
      fin = ((b >> 23) & 0xff) != 0xff;
    } else {
      uint64_t b = ref::be(p, 8);
      memcpy(&w, &b, 8);
      fin = ((b >> 52) & 0x7ff) != 0x7ff;
    }
    CHECK((s == 0) == fin);
    uint64_t x, y;
    memcpy(&x, &v, 8);
    memcpy(&y, &w, 8);
    if (s == 0) CHECK(x == y);
    symx_reach("value");
  } else {
    CHECKM(s < 0, "a failed or truncated read of a float is an error");
    symx_reach("error");
  }
#elif MODE == 5  // UnserializeString
  long long size = (long long)symx_pick("size", 0, 9) - 1;
  if (size == 8 && symx_bool("huge")) { size = (long long)symx_u64("hugesize"); symx_assume(size < 0 || size > 100); }
  char* str = symx_bool("prev") ? new char[3] : nullptr;
  int64_t live = symx_live() - (str != nullptr);
  long s = UnserializeString(r, pos, size, str);
  if (size >= 0 && size <= 8 && !r->failed && size <= left && pos <= r->avail) {
    CHECK(s == 0 && str);
    for (int i = 0; i < size; i++) CHECK((uint8_t)str[i] == p[i]);
    CHECK(str[size] == 0);
    symx_reach("string");
  }
  if (size < 0 || size > N || r->failed || (size > left && left > 0)) {
    CHECK(s != 0 && str == nullptr);
    symx_reach("string-error");
  }
  delete[] str;
  CHECK(symx_live() == live);
#elif MODE == 6  // ParseElementHeader
  long long stop = (long long)symx_pick("stop", 0, 12) - 1;
  long long id = 0, size = 0, start = pos;
  int n1 = ref::vlen(p[0]);
  long s = ParseElementHeader(r, pos, stop, id, size);
  bool ok = false;
  int n2 = 0;
  if (left >= 1 && n1 >= 1 && n1 <= 4 && left > n1) {
    n1 = (int)symx_concretize(n1);
    n2 = ref::vlen(p[n1]);
    if (n2 >= 1 && left >= n1 + n2) ok = true;
  }
  if (ok) n2 = (int)symx_concretize(n2);
  bool inside = ok && (stop < 0 || start + n1 + n2 <= stop);
  if (s == 0) {
    CHECK(inside && !r->failed);
    if (inside) {
      CHECK((uint64_t)id == ref::be(p, n1) && (uint64_t)size == ref::vint(p + n1, n2) && pos == start + n1 + n2);
      symx_reach("header");
    }
  } else {
    CHECK(s < 0);
    CHECKM(!inside || r->failed, "a complete element header is decoded");
    symx_reach("header-error");
  }
#elif MODE == 7  // Match
  uint32_t want = symx_u32("want");
  bool buf = symx_bool("buf");
  int n1 = ref::vlen(p[0]);
  bool ok = false;
  int n2 = 0;
  uint64_t size = 0;
  if (left >= 1 && n1 >= 1 && n1 <= 4 && left > n1) {
    n1 = (int)symx_concretize(n1);
    n2 = ref::vlen(p[n1]);
    if (n2 >= 1 && left >= n1 + n2) {
      n2 = (int)symx_concretize(n2);
      size = ref::vint(p + n1, n2);
      ok = size <= (uint64_t)(left - n1 - n2) && ref::be(p, n1) == want;
    }
  }
  long long start = pos;
  if (buf) {
    uint8_t* b = nullptr;
    size_t bl = 0;
    bool m = Match(r, pos, want, b, bl);
    if (m) {
      CHECK(ok && !r->failed && bl == size && pos == start + n1 + n2 + (long long)size);
      size_t k = symx_concretize(bl);
      if (ok) for (size_t i = 0; i < k && i < N; i++) CHECK(b[i] == p[n1 + n2 + i]);
      symx_reach("match-buf");
    } else {
      CHECKM(!ok || size == 0 || r->failed, "a complete element with the expected identifier matches");
      CHECKM(b == nullptr, "a failed match hands out no buffer");
    }
    delete[] b;
  } else {
    long long val = 0;
    bool m = Match(r, pos, want, val);
    bool okv = ok && size >= 1 && size <= 8;
    if (m) {
      CHECK(okv && !r->failed);
      if (okv) {
        int k = (int)symx_concretize(size);
        CHECK((uint64_t)val == ref::be(p + n1 + n2, k) && pos == start + n1 + n2 + k);
      }
      symx_reach("match-val");
    } else {
      CHECKM(!okv || r->failed || (p[n1 + n2] & 0x80), "a complete integer element with the expected identifier matches");
    }
  }
#endif
  delete r;
}
