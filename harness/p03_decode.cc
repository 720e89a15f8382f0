#include <string>
#include <vector>
#define NCUT 2
#include "webm_src.h"
#include "ebml_ref.h"
#include "src/bool_parser.h"
#include "src/byte_parser.h"
#include "src/date_parser.h"
#include "src/float_parser.h"
#include "src/id_element_parser.h"
#include "src/id_parser.h"
#include "src/int_parser.h"
#include "src/size_parser.h"
#include "src/var_int_parser.h"
#include "webm/callback.h"
#include "webm/dom_types.h"
#include "webm/id.h"
using namespace webm;
static uint8_t d[24];
static Callback cb;

// Feeds until the parser stops asking; returns the final status, accumulates consumed bytes.
static Status feed(Parser* p, SrcReader* r, uint64_t* total) {
  *total = 0;
  Status st(Status::kWouldBlock);
  for (int i = 0; i <= NCUT; i++) {
    uint64_t n = 77, before = r->pos, b0 = r->blocked;
    st = p->Feed(&cb, r, &n);
    CHECKM(n == r->pos - before, "reported count equals the bytes consumed");
    *total += n;
    CHECKM(st.code != Status::kOkPartial, "a partial status never leaves the decoder");
    if (st.code != Status::kWouldBlock) break;
    CHECK(r->blocked == b0 + 1);
  }
  CHECK(st.code != Status::kWouldBlock);
  return st;
}
// data length available and element size (index 10 = unknown)
static uint64_t esize;
static int pickSize(int maxs) {
  int s = (int)symx_pick("size", 0, maxs + 1);
  esize = s == maxs + 1 ? kUnknownElementSize : s;
  return s == maxs + 1 ? -1 : s;
}
static void initElem(ElementParser* p, bool* ok) {
  ElementMetadata m = {Id::kVoid, 2, esize, 10};
  Status st = p->Init(m, esize);
  CHECK(st.code == 0 || st.is_parsing_error());
  *ok = st.code == 0;
}

extern "C" void symx_main() {
  symx_bytes(d, sizeof d, "data");
  int avail = (int)symx_pick("avail", 0, AVAIL);
  SrcReader r(d, avail);
  r.schedule();
  uint64_t got;
#if MODE == 0 || MODE == 1 || MODE == 2  // id, size, varint
  int w = avail ? ref::vlen(d[0]) : 0;
  w = (int)symx_concretize(w);
#if MODE == 0
  IdParser p;
  bool legal = w >= 1 && w <= 4;
#elif MODE == 1
  SizeParser p;
  bool legal = w >= 1 && w <= 8;
#else
  VarIntParser p;
  bool legal = w >= 1 && w <= 8;
#endif
  Status st = feed(&p, &r, &got);
  if (avail == 0) {
    CHECK(st.code == Status::kEndOfFile && got == 0);
  } else if (!legal) {
    CHECK(st.is_parsing_error());
    CHECK(got <= (uint64_t)avail && got >= 1);
    symx_reach("illegal");
  } else if (w > avail) {
    CHECK(st.code == Status::kEndOfFile && got == (uint64_t)avail);
    symx_reach("short");
  } else {
    CHECK(st.completed_ok());
    CHECKM(got == (uint64_t)w, "exactly the encoded bytes are consumed");
    uint64_t raw = ref::be(d, w), val = raw & ~(1ull << (7 * w)), ones = (1ull << (7 * w)) - 1;
#if MODE == 0
    CHECK((uint64_t)p.id() == raw);
#elif MODE == 1
    if (val == ones) { CHECK(p.size() == kUnknownElementSize); symx_reach("unknown"); }
    else CHECK(p.size() == val);
#else
    CHECK(p.value() == val);
    CHECK(p.encoded_length() == w);
    (void)ones;
#endif
    symx_reach("value");
  }
#else
  bool ok;
#if MODE == 3
  uint64_t def = symx_u64("def");
  int s = pickSize(9);
  UnsignedIntParser p(def);
#elif MODE == 4
  int64_t def = (int64_t)symx_u64("def");
  int s = pickSize(9);
  SignedIntParser p(def);
#elif MODE == 5
  bool def = symx_bool("def");
  int s = pickSize(9);
  BoolParser p(def);
#elif MODE == 6
  MatrixCoefficients def = (MatrixCoefficients)symx_u64("def");
  int s = pickSize(9);
  IntParser<MatrixCoefficients> p(def);
#elif MODE == 7
  int64_t def = (int64_t)symx_u64("def");
  int s = pickSize(10);
  DateParser p(def);
#elif MODE == 8
  double def = 2.5;
  int s = pickSize(9);
  FloatParser p(def);
#elif MODE == 9
  int s = pickSize(9);
  bool hasdef = symx_bool("hasdef");
  StringParser p(hasdef ? std::string("eng") : std::string());
#elif MODE == 10
  int s = pickSize(9);
  bool hasdef = symx_bool("hasdef");
  std::vector<uint8_t> dv;
  if (hasdef) { dv.push_back(7); dv.push_back(0); }
  BinaryParser p(dv);
#elif MODE == 11
  int s = pickSize(6);
  IdElementParser p;
#endif
  // the decoder may have been used before for another element of the same kind
  if (REUSE && symx_bool("reused")) {
    static const uint8_t prev[8] = {0, 0, 0, 0, 0, 0, 0, 1};
    SrcReader pr(prev + (MODE == 7 || MODE == 8 ? 0 : 6), MODE == 7 || MODE == 8 ? 8 : 2);
    ElementMetadata m = {Id::kVoid, 2, pr.len, 10};
    uint64_t n = 0;
    CHECK(p.Init(m, pr.len).completed_ok());
    CHECK(p.Feed(&cb, &pr, &n).completed_ok());
    symx_reach("reused");
  }
  initElem(&p, &ok);
#if MODE == 7
  bool legal = s == 0 || s == 8;
#elif MODE == 8
  bool legal = s == 0 || s == 4 || s == 8;
#elif MODE == 9 || MODE == 10
  bool legal = s >= 0;
#elif MODE == 11
  bool legal = s >= 1 && s <= 4;
#else
  bool legal = s >= 0 && s <= 8;
#endif
#if MODE == 11
  if (s == 0 && ok) return;  // the meaning of an empty identifier element is not documented
#endif
  CHECKM(ok == legal, "exactly the legal lengths are accepted");
  if (!ok) { symx_reach("illegal"); return; }
  Status st = feed(&p, &r, &got);
#if MODE == 5
  // a boolean above 1 is refused, at the latest once complete
  bool bad = false;
  for (int i = 0; i < s && i < avail; i++) if (d[i] > (i == s - 1 ? 1 : 0)) bad = true;
  if (bad) {
    CHECK(st.is_parsing_error());
    CHECK(got <= (uint64_t)s);
    symx_reach("bad-bool");
    return;
  }
#endif
#if MODE == 11
  // the identifier's marker must announce the element's length
  if (s > 0 && st.is_parsing_error()) {
    CHECK(avail > 0 && (int)ref::vlen(d[0]) != s);
    symx_reach("bad-id");
    return;
  }
#endif
  if (s > avail) {
    CHECK(st.code == Status::kEndOfFile && got == (uint64_t)avail);
    symx_reach("short");
    return;
  }
  CHECK(st.completed_ok());
  CHECKM(got == (uint64_t)s, "exactly the element's bytes are consumed");
  if (s == 0) symx_reach("empty");
  symx_reach("value");
#if MODE == 3
  CHECK(p.value() == (s ? ref::be(d, s) : def));
  CHECK(*p.mutable_value() == p.value());
#elif MODE == 4
  CHECK(p.value() == (s ? ref::sbe(d, s) : def));
#elif MODE == 5
  CHECK(p.value() == (s ? d[s - 1] == 1 : def));
#elif MODE == 6
  CHECK((uint64_t)p.value() == (s ? ref::be(d, s) : (uint64_t)def));
#elif MODE == 7
  CHECK(p.value() == (s ? (int64_t)ref::be(d, 8) : def));
#elif MODE == 8
  double v = p.value(), e = def;
  if (s == 4) { uint32_t b = (uint32_t)ref::be(d, 4); float f; memcpy(&f, &b, 4); e = f; }
  if (s == 8) { uint64_t b = ref::be(d, 8); memcpy(&e, &b, 8); }
  uint64_t vb, eb;
  memcpy(&vb, &v, 8);
  memcpy(&eb, &e, 8);
  CHECK(vb == eb || (v != v && e != e));
#elif MODE == 9
  const std::string& v = p.value();
  if (s == 0) { CHECK(v.size() == (hasdef ? 3u : 0u)); if (hasdef) CHECK(v == "eng"); }
  else {
    int n = s;
    while (n > 0 && d[n - 1] == 0) n--;  // trailing padding is ignored
    CHECK(v.size() == (size_t)n);
    for (int i = 0; i < n && i < (int)v.size(); i++) CHECK((uint8_t)v[i] == d[i]);
  }
#elif MODE == 10
  const std::vector<uint8_t>& v = p.value();
  if (s == 0) { CHECK(v.size() == (hasdef ? 2u : 0u)); if (hasdef) CHECK(v[0] == 7 && v[1] == 0); }
  else {
    CHECK(v.size() == (size_t)s);
    for (int i = 0; i < s && i < (int)v.size(); i++) CHECK(v[i] == d[i]);
  }
#elif MODE == 11
  if (s == 0) return;
  CHECK((uint64_t)p.value() == ref::be(d, s));
#endif
#endif
}
