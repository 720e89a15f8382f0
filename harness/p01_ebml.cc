#include "ebml_ref.h"
#define WCAP 512
#include "mem_writer.h"
#include "mkvmuxer/mkvmuxerutil.h"
#include "common/webmids.h"
using namespace mkvmuxer;
static const uint64_t kMaxVint = (1ull << 56) - 2;
static uint32_t AnyId() {
  uint32_t id = symx_u32("id");
  symx_assume(ref::idlen(id) != 0);
  return id;
}
// checks the header written at the start of w and returns the payload offset
static int64_t Header(MemWriter& w, uint32_t id, uint64_t size) {
  ref::Elem e;
  bool ok = ref::elem(w.buf, 0, w.end, &e);
  CHECK(ok);
  if (!ok) symx_stop();
  CHECK(e.id == id);
  CHECK(e.idn == ref::idlen(id));
  CHECK(!e.unk);
  CHECK(e.size == size);
  CHECK(w.notes == 1 && w.last_id == id);
  return e.data;
}
#if MODE == 0  // coded size, minimal and fixed width
extern "C" void symx_main() {
  uint64_t v = symx_u64("v");
  {
    MemWriter w;
    int32 n = GetCodedUIntSize(v);
    CHECK(n >= 1 && n <= 8);
    int32 r = WriteUInt(&w, v);
    if (v <= kMaxVint) {
      CHECK(r == 0);
      CHECK(w.end == n);
      int k = (int)symx_concretize(ref::vlen(w.buf[0]));
      CHECK(k == w.end);
      CHECK(k >= 1 && ref::vint(w.buf, k) == v);
      CHECK(!ref::unknown(w.buf, k));
      // shortest encoding that is not the reserved pattern
      CHECK(k == 1 || v >= (1ull << (7 * (k - 1))) - 1);
      symx_reach("vint");
    } else {
      CHECK(r != 0);
      CHECK(w.end == 0);
      symx_reach("too-big");
    }
  }
  {
    MemWriter w;
    int size = (int)symx_pick("size", 0, 10) - 1;  // -1..9
    int32 r = WriteUIntSize(&w, v, size);
    if (size < 0 || size > 8) {
      CHECK(r != 0 && w.end == 0);
      symx_reach("bad-width");
    } else if (size == 0) {
      if (v <= kMaxVint) {
        CHECK(r == 0 && w.end >= 1);
        int k = (int)symx_concretize(ref::vlen(w.buf[0]));
        CHECK(k == w.end && k >= 1 && ref::vint(w.buf, k) == v && !ref::unknown(w.buf, k));
        symx_reach("auto-width");
      } else {
        CHECKM(r != 0, "a value beyond 2^56-2 is refused when the width is chosen automatically");
        CHECK(w.end == 0);
      }
    } else {
      bool fits = v <= (1ull << (7 * size)) - 2;
      if (fits) {
        CHECK(r == 0 && w.end == size && ref::vlen(w.buf[0]) == size && ref::vint(w.buf, size) == v);
        symx_reach("fixed-width");
      } else {
        CHECK(r != 0 && w.end == 0);
        symx_reach("fixed-too-small");
      }
    }
  }
}
#elif MODE == 1  // unsigned
extern "C" void symx_main() {
  uint32_t id = AnyId();
  uint64_t v = symx_u64("v");
  uint64_t fixed = symx_pick("fixed", 0, 9);
  MemWriter w;
  CHECK(GetUIntSize(v) == ref::ulen(v));
  uint64_t announced = fixed ? EbmlElementSize(id, v, fixed) : EbmlElementSize(id, (uint64)v);
  bool r = fixed ? WriteEbmlElement(&w, id, v, fixed) : WriteEbmlElement(&w, id, (uint64)v);
  bool fits = fixed <= 8 && (fixed == 0 || fixed == 8 || v < (1ull << (8 * fixed)));
  CHECK(r == fits);
  if (!r) { symx_reach("refused"); return; }
  CHECK((uint64_t)w.end == announced);
  int n = fixed ? (int)fixed : (int)symx_concretize(ref::ulen(v));
  int64_t d = Header(w, id, n);
  CHECK(w.end == d + n);
  CHECK(ref::be(w.buf + d, n) == v);
  symx_reach("written");
}
#elif MODE == 2  // signed and date
extern "C" void symx_main() {
  uint32_t id = AnyId();
  int64_t v = (int64_t)symx_u64("v");
  if (symx_bool("date")) {
    MemWriter w;
    CHECK(WriteEbmlDateElement(&w, id, v));
    CHECK((uint64_t)w.end == EbmlDateElementSize(id));
    int64_t d = Header(w, id, 8);
    CHECK(w.end == d + 8 && ref::sbe(w.buf + d, 8) == v);
    symx_reach("date");
  } else {
    MemWriter w;
    CHECK(WriteEbmlElement(&w, id, (int64)v));
    CHECK((uint64_t)w.end == EbmlElementSize(id, (int64)v));
    ref::Elem e;
    CHECK(ref::elem(w.buf, 0, w.end, &e));
    int n = (int)symx_concretize(e.size);
    CHECK(n == GetIntSize(v));
    int64_t d = Header(w, id, n);
    CHECK(w.end == d + n);
    CHECK(ref::sbe(w.buf + d, n) == v);
    CHECK(n == ref::slen(v));
    symx_reach("signed");
  }
}
#elif MODE == 3  // float, master, id
extern "C" void symx_main() {
  uint32_t id = AnyId();
  uint64_t v = symx_u64("v");
  int k = (int)symx_pick("kind", 0, 4);
  MemWriter w;
  if (k == 0) {
    uint32_t bits = (uint32_t)v;
    float f;
    memcpy(&f, &bits, 4);
    CHECK(WriteEbmlElement(&w, id, f));
    CHECK((uint64_t)w.end == EbmlElementSize(id, f));
    int64_t d = Header(w, id, 4);
    CHECK(w.end == d + 4 && ref::be(w.buf + d, 4) == bits);
    symx_reach("float");
  } else if (k == 1) {
    bool r = WriteEbmlMasterElement(&w, id, v);
    CHECK(r == (v <= kMaxVint));
    if (r) {
      CHECK((uint64_t)w.end == EbmlMasterElementSize(id, v));
      int64_t d = Header(w, id, v);
      CHECK(d == w.end);
      symx_reach("master");
    }
  } else if (k == 2) {
    CHECK(WriteID(&w, id) == 0);
    CHECK(w.end == ref::idlen(id) && ref::be(w.buf, (int)symx_concretize(w.end)) == id);
    symx_reach("id");
  } else if (k == 3) {
    int n = (int)symx_pick("n", 0, 9);
    int32 r = SerializeInt(&w, (int64)v, n);
    CHECK((r == 0) == (n >= 1 && n <= 8));
    if (r == 0) CHECK(w.end == n && ref::be(w.buf, n) == (n == 8 ? v : v & ((1ull << (8 * n)) - 1)));
    else CHECK(w.end == 0);
    symx_reach("serialize");
  } else {
    CHECK(SerializeInt(nullptr, (int64)v, 4) != 0 && WriteUInt(nullptr, v) != 0 && WriteID(nullptr, id) != 0);
    CHECK(!WriteEbmlElement(nullptr, id, (uint64)v) && !WriteEbmlElement(nullptr, id, (int64)v) && !WriteEbmlElement(nullptr, id, "x"));
    CHECK(!WriteEbmlElement(&w, id, (const char*)nullptr) && !WriteEbmlElement(&w, id, (const uint8*)nullptr, 3));
    CHECK(w.end == 0);
    CHECK(SerializeFloat(nullptr, 1.0f) != 0 && !WriteEbmlMasterElement(nullptr, id, v) && !WriteEbmlDateElement(nullptr, id, (int64)v));
    symx_reach("null");
  }
}
#elif MODE == 4  // string and binary
extern "C" void symx_main() {
  uint32_t id = AnyId();
  static uint8_t in[300];
  int n = (int)symx_pick("len", 0, LEN_CHOICES - 1);
  static const int lens[] = {0, 1, 2, 5, 126, 127, 128, 129, 3, 4, 6, 7, 8, 16, 31, 64, 255};
  n = lens[n];
  symx_bytes(in, n, "data");
  MemWriter w;
  int64_t d;
  if (symx_bool("string")) {
    for (int i = 0; i < n; i++) symx_assume(in[i] != 0);
    in[n] = 0;
    bool r = WriteEbmlElement(&w, id, (const char*)in);
    CHECK(r);
    CHECK((uint64_t)w.end == EbmlElementSize(id, (const char*)in));
    symx_reach("string");
  } else {
    bool r = WriteEbmlElement(&w, id, in, (uint64)n);
    CHECK(r == (n > 0));
    if (!r) { CHECK(w.end == 0); return; }
    CHECK((uint64_t)w.end == EbmlElementSize(id, in, (uint64)n));
    symx_reach("binary");
  }
  d = Header(w, id, n);
  CHECK(w.end == d + n);
  for (int i = 0; i < n; i++) CHECK(w.buf[d + i] == in[i]);
}
#elif MODE == 5  // void
extern "C" void symx_main() {
  uint64_t size = symx_u64("size");
  symx_assume(size <= VOID_MAX || size >= (1ull << 56));
  MemWriter w;
  uint64_t r = WriteVoidElement(&w, size);
  if (r != 0) {
    CHECK(r == size);
    CHECK((uint64_t)w.end == size);
    int64_t d = Header(w, libwebm::kMkvVoid, 0 + (w.end - (w.end <= 128 ? 2 : 3)));
    CHECK(d <= w.end);
    symx_reach("void");
  } else {
    symx_reach("void-refused");
    // 128 and 129 cannot be reached with a minimally coded size; everything else from 2 up must be accepted
    CHECK(size < 2 || size == 128 || size == 129 || size >= (1ull << 56) - 10);
    if (size >= 1 && size <= 129) CHECK(w.end == 0);
  }
}
#elif MODE == 6  // generated identifiers
extern "C" int symx_model_rand_r(unsigned* s) { (void)s; int v = (int)symx_u32("rand"); symx_assume(v >= 0); return v; }
extern "C" void symx_main() {
  unsigned seed = symx_u32("seed");
  uint64_t u = MakeUID(&seed);
  CHECK(u < (1ull << 56));
  symx_reach("uid");
}
#endif
