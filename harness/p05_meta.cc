// Segment information, chapters and tags through the muxer, read back element by element and
// with the demuxer.
#define WCAP 1200
#include "mux_tree.h"
#include "mem_writer.h"
#include "mem_reader.h"
#include "mkvparser/mkvparser.h"
#ifndef NT
#define NT 2
#endif
using namespace mkvmuxer;
static MemWriter w;
static Tree tree;
static bool big;  // beyond what the demuxer can hold
static int vary;       // which string varies; the others are all short or (where allowed) absent
static int others, ntext;
static const char* text(char* buf, bool may_be_absent) {
  int me = ntext++;
  int n;
  if (me == vary) { n = (int)symx_pick("len", 0, 6) - 1; if (n > 2) n += 123; if (n < 0 && !may_be_absent) n = 3; }
  else n = others ? 1 : may_be_absent ? -1 : 0;
  if (n < 0) return nullptr;
  for (int i = 0; i < n; i++) {
    uint8_t c = i < 2 ? symx_u8("c") : 'a';
    symx_assume(c);
    buf[i] = (char)c;
  }
  buf[n] = 0;
  return buf;
}
static void choose(int hi) { vary = (int)symx_pick("vary", 0, hi); others = (int)symx_pick("others", 0, 1); }
static void raw(const void* p, size_t n) { w.Write(p, (mkvmuxer::uint32)n); }
static void seghead() { static const uint8_t h[] = {0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF}; raw(h, sizeof h); }
static void info(uint64_t scale_bytes = 0) { static const uint8_t h[] = {0x15, 0x49, 0xA9, 0x66, 0x8F, 0x2A, 0xD7, 0xB1, 0x83, 0x0F, 0x42, 0x40, 0x4D, 0x80, 0x81, 'm', 0x57, 0x41, 0x81, 'w'}; raw(h, sizeof h); }
static void tracks() { static const uint8_t h[] = {0x16, 0x54, 0xAE, 0x6B, 0x8F, 0xAE, 0x8D, 0xD7, 0x81, 1, 0x73, 0xC5, 0x81, 1, 0x83, 0x81, 0x11, 0x86, 0x81, 'S'}; static_assert(sizeof h == 20, ""); raw(h, sizeof h); }
static void cluster() { static const uint8_t c[] = {0x1F, 0x43, 0xB6, 0x75, 0x83, 0xE7, 0x81, 0x00}; raw(c, sizeof c); }
static MemReader* rd;
static mkvparser::Segment* demux() {
  rd = new MemReader(w.buf, w.end);
  mkvparser::Segment* seg = nullptr;
  CHECK(mkvparser::Segment::CreateInstance(rd, 0, seg) == 0);
  if (!seg) symx_stop();
  long long st = seg->ParseHeaders();
  CHECKM(st == 0, "the demuxer accepts the file");
  if (st) symx_stop();
  return seg;
}
// the demuxer gives nothing for an empty string
static void same(const char* got, const char* want) {
  if (!got) { CHECKM(!want || !want[0], "string reported"); return; }
  CHECKM(want && strcmp(got, want) == 0, "string value");
}
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
#if KIND == 0
    SegmentInfo si;
    CHECK(si.Init());
    char b1[140], b2[140];
    choose(1);
    const char* mux = text(b1, true);
    const char* wr = text(b2, true);
    char libwebm_name[40];
    CHECK(strlen(si.muxing_app()) < 40 && strcmp(si.muxing_app(), si.writing_app()) == 0);
    strcpy(libwebm_name, si.muxing_app());
    si.set_muxing_app(mux);
    si.set_writing_app(wr);
    if (mux) CHECK(strcmp(si.muxing_app(), mux) == 0); else mux = libwebm_name;
    if (wr) CHECK(strcmp(si.writing_app(), wr) == 0); else wr = libwebm_name;
    const bool freeScale = symx_pick("freescale", 0, 1);
    uint64_t scale = freeScale ? symx_u64("scale") : 1000000;
    symx_assume(scale >= 1);
    si.set_timecode_scale(scale);
    int hasDate = (int)symx_pick("date?", 0, 1), hasDur = (int)symx_pick("dur?", 0, 2);
    int64_t date = hasDate ? (int64_t)symx_u64("date") : INT64_MIN;
    si.set_date_utc(date);
    uint32_t f1 = symx_u32("dur"), f2 = symx_u32("dur2");
    float d1, d2;
    memcpy(&d1, &f1, 4); memcpy(&d2, &f2, 4);
    if (freeScale) { d1 = 0.75f; d2 = 12345.5f; }
    symx_assume(d1 > 0 && d1 <= 3.4e38f && d2 > 0 && d2 <= 3.4e38f);
    if (hasDur) si.set_duration(d1);
    seghead();
    int64_t start = w.end;
    bool ok = si.Write(&w);
    CHECKM(ok, "a valid segment information is written");
    if (!ok) symx_stop();
    int64_t stop = w.end;
    float d = d1;
    if (hasDur == 2) {
      si.set_duration(d2);
      d = d2;
      CHECK(si.Finalize(&w));
      CHECKM(w.pos == stop && w.end == stop, "finalisation returns to the end");
    } else if (!hasDur) {
      CHECK(si.Finalize(&w));
      CHECKM(w.end == stop, "finalisation adds nothing");
    }
    tree.read(w.buf, start, stop);
    int i = tree.take(-1, 0x1549A966);
    tree.u(i, 0x2AD7B1, scale);
    int64_t dpos = 0;
    if (hasDur) { dpos = tree.nd[tree.find(i, 0x4489)].data; tree.f4(i, 0x4489, d); }
    if (date != INT64_MIN) {
      int k = tree.take(i, 0x4461);
      CHECKM(tree.nd[k].end - tree.nd[k].data == 8 && ref::be(w.buf + tree.nd[k].data, 8) == (uint64_t)date, "stored date");
    }
    tree.str(i, 0x4D80, mux);
    tree.str(i, 0x5741, wr);
    tree.empty();
    // the demuxer refuses durations beyond 2^63 nanoseconds
    if (!(scale >> 31) && (!hasDur || d < 4e9f)) {
      tracks(); cluster();
      mkvparser::Segment* s = demux();
      const mkvparser::SegmentInfo* di = s->GetInfo();
      CHECK(di->GetTimeCodeScale() == (long long)scale);
      if (hasDur) {
        uint32_t back = 0;  // the stored bytes were compared with d above
        for (int q = 0; q < 4; q++) back = (back << 8) | w.buf[dpos + q];
        memcpy(&d, &back, 4);
        double want = (double)d * (double)di->GetTimeCodeScale();
        CHECK(di->GetDuration() == (long long)want);
      } else CHECK(di->GetDuration() == -1);
      same(di->GetMuxingAppAsUTF8(), mux);
      same(di->GetWritingAppAsUTF8(), wr);
      CHECK(di->GetTitleAsUTF8() == nullptr);
      delete s; delete rd;
      symx_reach("demuxed");
    }
    symx_reach("written");
#elif KIND == 1
    Segment owner;
    uint64_t scale = symx_pick("scale", 0, 1) ? 1000000 : symx_u8("scalev");
    symx_assume(scale >= 1);
    owner.GetSegmentInfo()->set_timecode_scale(scale);
    Chapters chs;
    unsigned seed = 1;
    int n = (int)symx_pick("chapters", 1, N);
    const int ndisp = (int)symx_pick("displays", 0, D);
    choose(ndisp * 3);
    struct { const char* id; uint64_t uid, a, b; int nd; struct { const char *t, *l, *c; } d[2]; } want[3];
    static char bufs[24][140];
    int nb = 0;
    int free_one = (int)symx_pick("free", 0, n - 1);
    for (int i = 0; i < n; i++) {
      Chapter* c = chs.AddChapter(&seed);
      CHECK(c != nullptr);
      auto& x = want[i];
      bool fr = i == free_one;
      const int wide = fr ? (int)symx_pick("wide", 0, 2) : -1;
      x.uid = wide == 0 ? symx_u64("uid") : symx_u8("uid");
      symx_assume(x.uid);
      uint64_t a = wide == 1 ? symx_u64("start") : 5, b = wide == 2 ? symx_u64("stop") : 255;
      if (scale != 1000000) { symx_assume(a < 4096 && b < 4096); }
      x.a = a / scale; x.b = b / scale;
      if (x.a >> 63 || x.b >> 63) big = true;
      c->set_time(owner, a, b);
      c->set_uid(x.uid);
      x.id = fr ? text(bufs[nb++], true) : i ? "i" : nullptr;
      CHECK(c->set_id(x.id));
      x.nd = fr ? ndisp : (i & 1);
      for (int j = 0; j < x.nd; j++) {
        if (fr) { x.d[j].t = text(bufs[nb++], false); x.d[j].l = text(bufs[nb++], true); x.d[j].c = text(bufs[nb++], true); }
        else { x.d[j].t = "t"; x.d[j].l = j ? nullptr : "fre"; x.d[j].c = nullptr; }
        CHECK(c->add_string(x.d[j].t, x.d[j].l, x.d[j].c));
      }
    }
    CHECK(chs.Count() == n);
    seghead(); info(); tracks();
    int64_t start = w.end;
    bool ok = chs.Write(&w);
    CHECKM(ok, "chapters are written");
    if (!ok) symx_stop();
    tree.read(w.buf, start, w.end);
    int ck = tree.take(-1, 0x1043A770), ek = tree.take(ck, 0x45B9);
    for (int i = 0; i < n; i++) {
      int a = tree.take(ek, 0xB6);
      auto& x = want[i];
      if (x.id) tree.str(a, 0x5654, x.id);
      tree.u(a, 0x73C4, x.uid); tree.u(a, 0x91, x.a); tree.u(a, 0x92, x.b);
      for (int j = 0; j < x.nd; j++) {
        int dk = tree.take(a, 0x80);
        tree.str(dk, 0x85, x.d[j].t);
        if (x.d[j].l) tree.str(dk, 0x437C, x.d[j].l);
        if (x.d[j].c) tree.str(dk, 0x437E, x.d[j].c);
      }
    }
    tree.empty();
    symx_reach("written");
    if (!big) {
      cluster();
      mkvparser::Segment* s = demux();
      const mkvparser::Chapters* dc = s->GetChapters();
      CHECK(dc && dc->GetEditionCount() == 1);
      const mkvparser::Chapters::Edition* e = dc->GetEdition(0);
      CHECK(e && e->GetAtomCount() == n && !e->GetAtom(n) && !e->GetAtom(-1) && !dc->GetEdition(1));
      for (int i = 0; i < n; i++) {
        const mkvparser::Chapters::Atom* a = e->GetAtom(i);
        auto& x = want[i];
        CHECK(a->GetUID() == x.uid);
        CHECK(a->GetStartTimecode() == (long long)x.a && a->GetStopTimecode() == (long long)x.b);
        if (!(x.a >> 40) && !(x.b >> 40)) CHECK(a->GetStartTime(dc) == (long long)x.a * 1000000 && a->GetStopTime(dc) == (long long)x.b * 1000000);
        same(a->GetStringUID(), x.id);
        CHECK(a->GetDisplayCount() == x.nd);
        for (int j = 0; j < x.nd; j++) {
          const mkvparser::Chapters::Display* q = a->GetDisplay(j);
          if (!q) { symx_assert(false, "display"); continue; }
          same(q->GetString(), x.d[j].t); same(q->GetLanguage(), x.d[j].l); same(q->GetCountry(), x.d[j].c);
        }
      }
      delete s; delete rd;
      symx_reach("demuxed");
    }
#else
    Tags tags;
    int n = (int)symx_pick("tags", 1, N);
    
    const char* want[3][3][2];
    int ns[3];
    static char bufs[24][140];
    int nb = 0, free_one = (int)symx_pick("free", 0, n - 1);
    for (int i = 0; i < n; i++) {
      Tag* t = tags.AddTag();
      CHECK(t != nullptr);
      bool fr = i == free_one;
      ns[i] = fr ? (int)symx_pick("simple", 0, D) : 1 + (i & 1);
      for (int j = 0; j < ns[i]; j++) {
        if (fr && !j) choose(ns[i] * 2 - 1);
        for (int k = 0; k < 2; k++) want[i][j][k] = fr ? text(bufs[nb++], false) : k ? "v" : "n";
        CHECK(t->add_simple_tag(want[i][j][0], want[i][j][1]));
      }
    }
    CHECK(tags.Count() == n);
    seghead(); info(); tracks();
    int64_t start = w.end;
    bool ok = tags.Write(&w);
    CHECKM(ok, "tags are written");
    if (!ok) symx_stop();
    tree.read(w.buf, start, w.end);
    int tk = tree.take(-1, 0x1254C367);
    for (int i = 0; i < n; i++) {
      int t = tree.take(tk, 0x7373);
      for (int j = 0; j < ns[i]; j++) {
        int st = tree.take(t, 0x67C8);
        tree.str(st, 0x45A3, want[i][j][0]);
        tree.str(st, 0x4487, want[i][j][1]);
      }
    }
    tree.empty();
    symx_reach("written");
    cluster();
    mkvparser::Segment* s = demux();
    const mkvparser::Tags* dt = s->GetTags();
    CHECK(dt != nullptr);
    int at = 0;
    for (int i = 0; i < n; i++) {
      if (!ns[i]) continue;  // an empty tag is not reported
      const mkvparser::Tags::Tag* t = dt->GetTag(at++);
      CHECK(t && t->GetSimpleTagCount() == ns[i] && !t->GetSimpleTag(ns[i]) && !t->GetSimpleTag(-1));
      for (int j = 0; j < ns[i]; j++) {
        const mkvparser::Tags::SimpleTag* q = t->GetSimpleTag(j);
        same(q->GetTagName(), want[i][j][0]); same(q->GetTagString(), want[i][j][1]);
      }
    }
    CHECK(dt->GetTagCount() == at && !dt->GetTag(at) && !dt->GetTag(-1));
    delete s; delete rd;
    symx_reach("demuxed");
#endif
  }
  CHECKM(symx_live() == live0, "no leak");
}
