// The same document parsed undivided and under a solver-chosen delivery schedule: same log.
#define MAXITEMS 20
#ifndef CLIENT
#define CLIENT 0
#endif
#include "webm_gen.h"
static const int LOG = 4000;
struct Log {
  uint64_t v[LOG];
  int n = 0;
  void add(uint64_t x) { CHECKM(n < LOG, "log full"); v[n++] = x; }
};
struct Dump {
  Log* l;
  void b(bool p, uint64_t v) { l->add(p); l->add(v); }
  template <class T> void uint(uint32_t, const Element<T>* e, uint64_t) { b(e->is_present(), (uint64_t)e->value()); }
  template <class T> void uint_like(uint32_t, const Element<T>* e, uint32_t) { b(e->is_present(), (uint64_t)e->value()); }
  void uints(uint32_t, const std::vector<Element<uint64_t>>* v) { l->add(v->size()); for (auto& e : *v) b(e.is_present(), e.value()); }
  void sint(uint32_t, const Element<int64_t>* e, int64_t) { b(e->is_present(), (uint64_t)e->value()); }
  void sints(uint32_t, const std::vector<Element<int64_t>>* v) { l->add(v->size()); for (auto& e : *v) b(e.is_present(), (uint64_t)e.value()); }
  void flt(uint32_t, const Element<double>* e, double) { double d = e->value(); uint64_t u; memcpy(&u, &d, 8); b(e->is_present(), u); }
  void flt_like(uint32_t i, const Element<double>* e, uint32_t, double d) { flt(i, e, d); }
  void date(uint32_t, const Element<int64_t>* e) { b(e->is_present(), (uint64_t)e->value()); }
  void s(const Element<std::string>& e) { b(e.is_present(), e.value().size()); for (size_t i = 0; i < e.value().size(); i++) l->add((uint8_t)e.value()[i]); }
  void str(uint32_t, const Element<std::string>* e, const char*) { s(*e); }
  void strs(uint32_t, const std::vector<Element<std::string>>* v, const char*, bool) { l->add(v->size()); for (auto& e : *v) s(e); }
  void bin(uint32_t, const Element<std::vector<uint8_t>>* e) { b(e->is_present(), e->value().size()); for (size_t i = 0; i < e->value().size(); i++) l->add(e->value()[i]); }
  void flag(uint32_t, const Element<bool>* e, int) { b(e->is_present(), e->value()); }
  void id(uint32_t, const Element<Id>* e) { b(e->is_present(), (uint64_t)e->value()); }
  void blk(const Block& x) { l->add(x.track_number); l->add((uint64_t)(int64_t)x.timecode); l->add((uint64_t)x.num_frames); l->add((uint64_t)x.lacing); l->add(x.is_visible); }
  void block(uint32_t, const Element<Block>* e) { l->add(e->is_present()); blk(e->value()); }
  void sblocks(uint32_t, const std::vector<Element<SimpleBlock>>* v) { l->add(v->size()); for (auto& e : *v) { l->add(e.is_present()); blk(e.value()); l->add(e.value().is_key_frame); l->add(e.value().is_discardable); } }
  void vblock(uint32_t, const Element<VirtualBlock>* e) { l->add(e->is_present()); l->add(e->value().track_number); l->add((uint64_t)(int64_t)e->value().timecode); }
  template <class T> void sub(uint32_t, const Element<T>* e) { l->add(e->is_present()); dom::fields(*this, &e->value()); }
  template <class T> void reps(uint32_t, const std::vector<Element<T>>* v) { l->add(v->size()); for (auto& e : *v) { l->add(e.is_present()); dom::fields(*this, &e.value()); } }
};
typedef ElementMetadata EM;
struct Cb : Callback {
  Log log;
  Status ok{Status::kOkCompleted};
  uint64_t pending[600];  // content of the element being delivered
  int np = 0, partials = 0;
  int start[300], ne = 0;  // where each event is logged
  void head(int k, const EM& m) { CHECKM(ne < 299, "events"); start[ne++] = log.n; log.add(k); log.add((uint64_t)m.id); log.add(m.header_size); log.add(m.size); log.add(m.position); }
  template <class T> Status val(int k, const EM& m, const T& x) { head(k, m); Dump d{&log}; dom::fields(d, &x); return ok; }
  Status body(Reader* r, uint64_t* rem) {
    Status st = ok;
    while (*rem) {
      uint8_t buf[16];
      uint64_t got = 0, want = symx_concretize(*rem < 16 ? *rem : 16);
      if (dribble) want = 1;
      st = r->Read(want, buf, &got);
      for (uint64_t i = 0; i < got; i++) { CHECKM(np < 600, "content buffer"); pending[np++] = buf[i]; }
      *rem -= got;
      if (dribble && st.ok() && *rem) { partials++; return Status(Status::kOkPartial); }
      if (st.code == Status::kOkPartial) continue;
      if (!st.completed_ok()) return st;
    }
    return st;
  }
  void flush() { for (int i = 0; i < np; i++) log.add(pending[i]); np = 0; }
  int calls = 0, pause_at = -1;  // the client stops once, at one event
  bool dribble = false;          // or takes content one byte at a time
  bool pause() { return calls++ == pause_at; }
  Status OnElementBegin(const EM& m, Action* a) override { if (pause()) return Status(Status::kOkPartial); head(1, m); *a = Action::kRead; return ok; }
  Status OnUnknownElement(const EM& m, Reader* r, uint64_t* rem) override { if (pause()) return Status(Status::kOkPartial); Status s = body(r, rem); if (s.completed_ok()) { head(2, m); flush(); } return s; }
  Status OnVoid(const EM& m, Reader* r, uint64_t* rem) override { if (pause()) return Status(Status::kOkPartial); Status s = body(r, rem); if (s.completed_ok()) { head(3, m); flush(); } return s; }
  Status OnEbml(const EM& m, const Ebml& x) override { if (pause()) return Status(Status::kOkPartial); return val(4, m, x); }
  Status OnSegmentBegin(const EM& m, Action* a) override { if (pause()) return Status(Status::kOkPartial); head(5, m); *a = Action::kRead; return ok; }
  Status OnSegmentEnd(const EM& m) override { if (pause()) return Status(Status::kOkPartial); head(6, m); return ok; }
  Status OnSeek(const EM& m, const Seek& x) override { if (pause()) return Status(Status::kOkPartial); return val(7, m, x); }
  Status OnInfo(const EM& m, const Info& x) override { if (pause()) return Status(Status::kOkPartial); return val(8, m, x); }
  Status OnClusterBegin(const EM& m, const Cluster& x, Action* a) override { if (pause()) return Status(Status::kOkPartial); *a = Action::kRead; return val(9, m, x); }
  Status OnClusterEnd(const EM& m, const Cluster& x) override { if (pause()) return Status(Status::kOkPartial); return val(10, m, x); }
  Status OnSimpleBlockBegin(const EM& m, const SimpleBlock& x, Action* a) override { if (pause()) return Status(Status::kOkPartial); *a = Action::kRead; head(11, m); Dump d{&log}; d.blk(x); return ok; }
  Status OnSimpleBlockEnd(const EM& m, const SimpleBlock& x) override { if (pause()) return Status(Status::kOkPartial); head(12, m); Dump d{&log}; d.blk(x); return ok; }
  Status OnBlockGroupBegin(const EM& m, Action* a) override { if (pause()) return Status(Status::kOkPartial); *a = Action::kRead; head(13, m); return ok; }
  Status OnBlockGroupEnd(const EM& m, const BlockGroup& x) override { if (pause()) return Status(Status::kOkPartial); return val(14, m, x); }
  Status OnBlockBegin(const EM& m, const Block& x, Action* a) override { if (pause()) return Status(Status::kOkPartial); *a = Action::kRead; head(15, m); Dump d{&log}; d.blk(x); return ok; }
  Status OnBlockEnd(const EM& m, const Block& x) override { if (pause()) return Status(Status::kOkPartial); head(16, m); Dump d{&log}; d.blk(x); return ok; }
  Status OnFrame(const FrameMetadata& m, Reader* r, uint64_t* rem) override { if (pause()) return Status(Status::kOkPartial); Status s = body(r, rem); if (s.completed_ok()) { head(17, m.parent_element); log.add(m.position); log.add(m.size); flush(); } return s; }
  Status OnTrackEntry(const EM& m, const TrackEntry& x) override { if (pause()) return Status(Status::kOkPartial); return val(18, m, x); }
  Status OnCuePoint(const EM& m, const CuePoint& x) override { if (pause()) return Status(Status::kOkPartial); return val(19, m, x); }
  Status OnEditionEntry(const EM& m, const EditionEntry& x) override { if (pause()) return Status(Status::kOkPartial); return val(20, m, x); }
  Status OnTag(const EM& m, const Tag& x) override { if (pause()) return Status(Status::kOkPartial); return val(21, m, x); }
};
static Cb a, b;
#ifdef RESUME
// the elements of the document: containers keep their place, others can be blanked
static int el_at[300], el_end[300], nel = 0;
static void scan(const Inst& x) {
  for (int i = 0; i < x.n; i++) {
    const Item& t = x.it[i];
    int hdr = (t.id > 0xFFFFFF ? 4 : t.id > 0xFFFF ? 3 : t.id > 0xFF ? 2 : 1) + (t.kind == dom::MASTER ? 2 : 1);
    CHECKM(nel < 300, "elements");
    int k = nel++;
    el_at[k] = t.at - hdr;
    el_end[k] = t.at + t.len;
    if (t.child >= 0) { scan(inst[t.child]); el_end[k] = t.at + (int)ref::be(f + t.at - 2, 2) - 0x4000; }
  }
}
static bool enclosing(Cb& c, int i) { return c.log.v[c.start[i] + 4] == (uint64_t)kUnknownElementPosition; }
static void same(Cb& x, int i, Cb& y, int j, int from, const char* what) {
  x.start[x.ne] = x.log.n; y.start[y.ne] = y.log.n;
  int n1 = x.start[i + 1] - x.start[i], n2 = y.start[j + 1] - y.start[j];
  CHECKM(n1 == n2, what);
  for (int k = 0; k < n1; k++) if (k < 2 || k >= from) CHECKM(x.log.v[x.start[i] + k] == y.log.v[y.start[j] + k], what);
}
static void resume(WebmParser& pa, WebmParser& pb, int root) {
  scan(inst[root]);
  int k = (int)symx_pick("at", 0, nel - 1), at = el_at[k];
  SrcReader r(f, n);
  if (symx_bool("parsed")) { SrcReader r0(f, n); Cb& c0 = a; pb.Feed(&c0, &r0); a.ne = a.log.n = 0; symx_reach("mid-parse"); }
  pb.DidSeek();
  r.pos = at;
  CHECKM(pb.Feed(&b, &r).completed_ok(), "resuming at an element succeeds");
  CHECKM(r.pos == (uint64_t)n, "all is consumed");
  // what came before is blanked in the reading that is compared with
  for (int i = 0; i < nel && el_at[i] < at; i++) {
    if (el_end[i] > at) continue;
    int len = el_end[i] - el_at[i];
    uint8_t* q = f + el_at[i];
    q[0] = 0xEC;
    if (len < 129) q[1] = 0x80 | (len - 2); else { q[1] = 0x40 | (len - 3) >> 8; q[2] = (uint8_t)(len - 3); }
    int end = el_end[i];
    while (i + 1 < nel && el_end[i + 1] <= end) i++;
  }
  SrcReader ra(f, n);
  CHECKM(pa.Feed(&a, &ra).completed_ok(), "the compared reading succeeds");
  int j = 0;
  for (int i = 0; i < b.ne; i++) {
    if (enclosing(b, i)) continue;
    while (j < a.ne && (int64_t)a.log.v[a.start[j] + 4] < at) j++;
    CHECKM(j < a.ne, "no more than in a straight read");
    same(a, j, b, i, 0, "same event as in a straight read");
    j++;
  }
  while (j < a.ne && (int64_t)a.log.v[a.start[j] + 4] < at) j++;
  CHECKM(j == a.ne, "no less than in a straight read");
  // the enclosing elements end with the values that came after the seek
  j = 0;
  for (int i = 0; i < b.ne; i++) {
    if (!enclosing(b, i)) continue;
    for (; j < a.ne; j++) {
      uint64_t kind = a.log.v[a.start[j]], p = a.log.v[a.start[j] + 4], sz = a.log.v[a.start[j] + 3], h = a.log.v[a.start[j] + 2];
      if (kind == 1 || kind == 3 || kind == 5 || kind == 9 || kind == 13 || (int64_t)p >= at) continue;
      if (sz != kUnknownElementSize && (int64_t)(p + h + sz) <= at) continue;
      break;
    }
    CHECKM(j < a.ne, "an enclosing element ends");
#ifdef DEBUG_EVENTS
    symx_debug("at", at); symx_debug("kind a", a.log.v[a.start[j]]); symx_debug("pos a", a.log.v[a.start[j] + 4]); symx_debug("kind b", b.log.v[b.start[i]]);
    a.start[a.ne] = a.log.n; b.start[b.ne] = b.log.n;
    for (int k = a.start[j]; k < a.start[j + 1]; k++) symx_debug("a", a.log.v[k]);
    for (int k = b.start[i]; k < b.start[i + 1]; k++) symx_debug("b", b.log.v[k]);
#endif
    same(a, j, b, i, 5, "value of an enclosing element");
    symx_reach("enclosing");
    j++;
  }
  symx_reach("resumed");
}
#endif
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    WebmParser pa, pb;
    all = ALL;
    for (int i = 0; wrap[i]; i++) { put_id(wrap[i]); f[n++] = 0xFF; }
    put_id(rootId);
    int at = n;
    n += 2;
    int me = ninst++;
    gen<RootT>(me, 0, NI);
    f[at] = 0x40 | (n - at - 2) >> 8; f[at + 1] = (uint8_t)(n - at - 2);
#ifdef RESUME
    resume(pa, pb, me);
#else
    // followed by padding, an unknown element, and possibly something that is cut short
    put_id(0xEC); f[n++] = 0x83; for (int i = 0; i < 3; i++) f[n++] = symx_u8("pad");
    put_id(0x4FFF); f[n++] = 0x82; for (int i = 0; i < 2; i++) f[n++] = symx_u8("unk");
#if TRUNC
    n = (int)symx_pick("end", n > 255 ? n - 255 : 0, n);
#endif
    SrcReader ra(f, n), rb(f, n);
    Status sa = pa.Feed(&a, &ra);
#if CLIENT
    b.dribble = symx_bool("dribble");
    if (!b.dribble) b.pause_at = (int)symx_pick("pause", 0, CLIENT);
#elif NCUT
    rb.schedule();
#else
    rb.each = true;
#endif
    Status sb(Status::kWouldBlock);
    uint64_t blocked = 0;
    int stops = 0;
    while (sb.code == Status::kWouldBlock || (sb.code == Status::kOkPartial && ++stops < 40)) {
      sb = pb.Feed(&b, &rb);
      if (sb.code == Status::kWouldBlock) { CHECKM(rb.blocked > blocked, "a pause comes from the input"); blocked = rb.blocked; }
    }
    CHECKM(sa.code == sb.code, "same verdict");
    CHECKM(ra.pos == rb.pos, "same bytes consumed");
    CHECKM(a.log.n == b.log.n, "same number of events");
    for (int i = 0; i < a.log.n; i++) CHECKM(a.log.v[i] == b.log.v[i], "same events");
    if (stops || rb.blocked) symx_reach("paused");
    symx_reach(sa.completed_ok() ? "accepted" : "rejected");
#endif
  }
  CHECK(symx_live() == live0);
}
