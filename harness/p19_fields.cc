// Containers with solver-chosen children; the reported structure compared field by field with
// what was stored.
#ifdef ALL
#define MAXITEMS 20
#endif
#include "webm_gen.h"
static uint64_t bits(double d) { uint64_t v; memcpy(&v, &d, 8); return v; }
struct Compare {
  const Inst* x;  // null: container absent
  const Item* last(uint32_t id) { const Item* r = nullptr; if (x) for (int i = 0; i < x->n; i++) if (x->it[i].id == id) r = &x->it[i]; return r; }
  int count(uint32_t id) { int r = 0; if (x) for (int i = 0; i < x->n; i++) r += x->it[i].id == id; return r; }
  const Item* nth(uint32_t id, int k) { for (int i = 0; i < x->n; i++) if (x->it[i].id == id && k-- == 0) return &x->it[i]; return nullptr; }
  static uint64_t uval(const Item* t, uint64_t d) { return t && t->len ? ref::be(f + t->at, t->len) : d; }
  static int64_t sval(const Item* t, int64_t d) { return t && t->len ? ref::sbe(f + t->at, t->len) : d; }
  static double fval(const Item* t, double d) {
    if (!t || !t->len) return d;
    if (t->len == 4) { uint32_t u = (uint32_t)ref::be(f + t->at, 4); float v; memcpy(&v, &u, 4); return v; }
    uint64_t u = ref::be(f + t->at, 8); double v; memcpy(&v, &u, 8); return v;
  }
  template <class T> void uint(uint32_t i, const Element<T>* e, uint64_t d) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM((uint64_t)e->value() == uval(t, d), "unsigned value");
  }
  template <class T> void uint_like(uint32_t i, const Element<T>* e, uint32_t like) { uint(i, e, uval(last(like), 0)); }
  void uints(uint32_t i, const std::vector<Element<uint64_t>>* v) {
    CHECKM((int)v->size() == count(i), "number of repetitions");
    for (int k = 0; k < (int)v->size(); k++) CHECKM((*v)[k].is_present() && (*v)[k].value() == uval(nth(i, k), 0), "repeated unsigned");
  }
  void sint(uint32_t i, const Element<int64_t>* e, int64_t d) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM(e->value() == sval(t, d), "signed value");
  }
  void sints(uint32_t i, const std::vector<Element<int64_t>>* v) {
    CHECKM((int)v->size() == count(i), "number of repetitions");
    for (int k = 0; k < (int)v->size(); k++) CHECKM((*v)[k].is_present() && (*v)[k].value() == sval(nth(i, k), 0), "repeated signed");
  }
  void flt(uint32_t i, const Element<double>* e, double d) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    double w = fval(t, d);
    CHECKM(bits(e->value()) == bits(w) || (w != w && e->value() != e->value()), "float value");
  }
  void flt_like(uint32_t i, const Element<double>* e, uint32_t like, double d) { flt(i, e, fval(last(like), d)); }
  void date(uint32_t i, const Element<int64_t>* e) { sint(i, e, 0); }
  static bool same(const std::string& s, const Item* t, const char* d) {
    if (!t || !t->len) return s == d;
    if ((int)s.size() != t->len) return false;
    bool ok = true;
    for (int k = 0; k < t->len; k++) ok = ok & ((uint8_t)s[k] == f[t->at + k]);
    return ok;
  }
  void str(uint32_t i, const Element<std::string>* e, const char* d) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM(same(e->value(), t, d), "string value");
  }
  void strs(uint32_t i, const std::vector<Element<std::string>>* v, const char* d, bool implied) {
    int c = count(i);
    if (!c) {
      CHECKM((int)v->size() == (implied ? 1 : 0), "implied default entry");
      if (implied) CHECKM(!(*v)[0].is_present() && (*v)[0].value() == d, "implied default value");
      return;
    }
    CHECKM((int)v->size() == c, "number of repetitions");
    for (int k = 0; k < c; k++) CHECKM((*v)[k].is_present() && same((*v)[k].value(), nth(i, k), d), "repeated string");
  }
  void bin(uint32_t i, const Element<std::vector<uint8_t>>* e) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM((int)e->value().size() == (t ? t->len : 0), "binary size");
    for (int k = 0; t && k < t->len; k++) CHECKM(e->value()[k] == f[t->at + k], "binary byte");
  }
  void flag(uint32_t i, const Element<bool>* e, int d) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM(e->value() == (uval(t, d) != 0), "flag value");
  }
  void id(uint32_t i, const Element<Id>* e) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    CHECKM((uint64_t)e->value() == (t ? ref::be(f + t->at, t->len) : 0), "identifier value");
  }
  static void blk(const Block& b, const Item* t) {
    const uint8_t* p = f + t->at;
    CHECKM(b.track_number == (p[0] & 0x7Fu) && b.timecode == (int16_t)ref::be(p + 1, 2) && b.num_frames == 1 && b.lacing == Lacing::kNone && b.is_visible == !(p[3] & 8), "block header");
  }
  void block(uint32_t i, const Element<Block>* e) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    if (t) blk(e->value(), t);
  }
  void sblocks(uint32_t i, const std::vector<Element<SimpleBlock>>* v) {
    CHECKM((int)v->size() == count(i), "number of simple blocks");
    for (int k = 0; k < (int)v->size(); k++) {
      const Item* t = nth(i, k);
      CHECKM((*v)[k].is_present(), "presence");
      blk((*v)[k].value(), t);
      CHECKM((*v)[k].value().is_key_frame == (f[t->at + 3] >> 7) && (*v)[k].value().is_discardable == (f[t->at + 3] & 1), "simple block flags");
    }
  }
  void vblock(uint32_t i, const Element<VirtualBlock>* e) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    if (t) CHECKM(e->value().track_number == (f[t->at] & 0x7Fu) && e->value().timecode == (int16_t)ref::be(f + t->at + 1, 2), "virtual block header");
  }
  template <class T> void sub(uint32_t i, const Element<T>* e) {
    const Item* t = last(i);
    CHECKM(e->is_present() == (t != nullptr), "presence");
    Compare c{t ? &inst[t->child] : nullptr};
    dom::fields(c, &e->value());
  }
  template <class T> void reps(uint32_t i, const std::vector<Element<T>>* v) {
    CHECKM((int)v->size() == count(i), "number of repetitions");
    for (int k = 0; k < (int)v->size(); k++) {
      CHECKM((*v)[k].is_present(), "presence");
      Compare c{&inst[nth(i, k)->child]};
      dom::fields(c, &(*v)[k].value());
    }
  }
};
static int seen = 0, rootInst[ROOTS];
template <class T> static Status check(const T& v) {
  CHECKM(seen < ROOTS, "number of container events");
  Compare c{&inst[rootInst[seen++]]};
  dom::fields(c, &v);
  symx_reach("container");
  return Status(Status::kOkCompleted);
}
static int question = 0, skip_q = -1;
struct Cb : Callback {
#ifdef SKIPQ
  Status OnElementBegin(const ElementMetadata& m, Action* a) override {
    *a = Action::kRead;
    CHECKM(skipped_end <= m.position, "nothing inside a skipped element is announced");
    if (question++ == skip_q) {
      int at = (int)symx_concretize(m.position + m.header_size);
      *a = Action::kSkip;
      skipped_end = at + m.size;
      for (int i = 0; i < ninst; i++)
        for (int j = 0; j < inst[i].n; j++)
          if (inst[i].it[j].at == at) {
            for (int k = j; k + 1 < inst[i].n; k++) inst[i].it[k] = inst[i].it[k + 1];
            inst[i].n--;
            symx_reach("skipped");
            return Status(Status::kOkCompleted);
          }
      root_skipped = true;  // the root container or something around it
      if (m.size == kUnknownElementSize) skipped_end = n;
      symx_reach("root-skipped");
    }
    return Status(Status::kOkCompleted);
  }
  uint64_t skipped_end = 0;
  bool root_skipped = false;
#endif
  Status OnEbml(const ElementMetadata&, const Ebml& x) override { return ROOT == 0 ? check(x) : Status(Status::kOkCompleted); }
  Status OnInfo(const ElementMetadata&, const Info& x) override { return check(x); }
  Status OnSeek(const ElementMetadata&, const Seek& x) override { return check(x); }
  Status OnClusterEnd(const ElementMetadata&, const Cluster& x) override { return ROOT == 3 ? check(x) : Status(Status::kOkCompleted); }
  Status OnBlockGroupEnd(const ElementMetadata&, const BlockGroup& x) override { return ROOT == 4 ? check(x) : Status(Status::kOkCompleted); }
  Status OnTrackEntry(const ElementMetadata&, const TrackEntry& x) override { return check(x); }
  Status OnCuePoint(const ElementMetadata&, const CuePoint& x) override { return check(x); }
  Status OnEditionEntry(const ElementMetadata&, const EditionEntry& x) override { return check(x); }
  Status OnTag(const ElementMetadata&, const Tag& x) override { return check(x); }
};
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    WebmParser p;
    for (int i = 0; wrap[i]; i++) { put_id(wrap[i]); f[n++] = 0xFF; }
#ifdef ALL
    all = true;
#endif
    for (int r = 0; r < ROOTS; r++) {
      put_id(rootId);
      int at = n;
      n += 2;
      rootInst[r] = ninst++;
      gen<RootT>(rootInst[r], 0, NI);
      f[at] = 0x40 | (n - at - 2) >> 8; f[at + 1] = (uint8_t)(n - at - 2);
    }
    SrcReader r(f, n);
    Cb cb;
#ifdef SKIPQ
    skip_q = (int)symx_pick("skip", 0, SKIPQ);
#endif
    Status st = p.Feed(&cb, &r);
    CHECKM(st.completed_ok(), "well-formed documents are accepted");
#ifdef SKIPQ
    if (cb.root_skipped) CHECKM(seen == 0 && r.pos == (uint64_t)n, "a skipped container is not reported"); else
#endif
    CHECKM(seen == ROOTS, "every container is reported");
  }
  CHECK(symx_live() == live0);
}
