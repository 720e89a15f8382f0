// A finalised file is rewritten with its cues in front.  MODE 0: every entry of the copy points
// where it did; MODE 1: cluster positions and times in the index of any size; MODE 2: failing sink
// or source.
#define WCAP 3000
#define MAXNODES 120
#include "mux_tree.h"
#include "mem_writer.h"
#include "mem_reader.h"
using namespace mkvmuxer;
#ifndef MODE
#define MODE 0
#endif
#ifndef NCUES
#define NCUES 3
#endif
#ifndef NSYM
#define NSYM 2
#endif
#ifndef NF
#define NF 3
#endif
static MemWriter w;
struct FailWriter : MemWriter {
  bool fail() {
    if (!counting || fops++ != fault_at) return false;
    failed = true;
    return true;
  }
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 n) { return fail() ? (int)symx_pick("code", 0, 1) * 2 - 1 : MemWriter::Write(b, n); }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) { return fail() ? -1 : MemWriter::Position(p); }
  mkvmuxer::int64 Position() const { return pos; }
  bool counting;
  int64_t fops, fault_at;
};
static FailWriter v;
static Tree a, b;
static int cluster_at(Tree& t, int sk, int64_t pos) {
  for (int i = 0; i < t.n; i++) if (t.nd[i].parent == sk && t.nd[i].id == 0x1F43B675 && t.nd[i].pos - t.nd[sk].data == pos) return i;
  return -1;
}
static int ordinal(Tree& t, int k) { int o = 0; for (int i = 0; i < k; i++) o += t.nd[i].parent == t.nd[k].parent && t.nd[i].id == t.nd[k].id; return o; }
static void body() {
  {
    Segment seg;
    CHECK(seg.Init(&w));
    seg.GetSegmentInfo()->set_timecode_scale(1);
    seg.GetSegmentInfo()->set_muxing_app("m");
    seg.GetSegmentInfo()->set_writing_app("w");
    seg.set_duration(7.0);
    CHECK(seg.AddVideoTrack(64, 48, 1) == 1);
    CHECK(seg.AddAudioTrack(8000, 1, 2) == 2);
    int o = MODE == 0 ? (int)symx_pick("option", 0, 7) : 0;
    if (o == 1) seg.OutputCues(false);
    if (o == 2) seg.set_mode(Segment::kLive);
    if (o == 3) w.seekable = false;
    if (o == 4) seg.UseFixedSizeClusterTimecode(true);
    if (o == 5) seg.AccurateClusterDuration(true);
    if (o == 6) CHECK(seg.CuesTrack(2));
    if (o == 7) {
      Chapter* ch = seg.AddChapter();
      CHECK(ch && ch->set_id("c"));
      ch->set_time(seg, 1, 2);
      Tag* t = seg.AddTag();
      CHECK(t && t->add_simple_tag("k", "v"));
    }
    const int n = MODE == 0 && (o < 1 || o > 3) ? (int)symx_pick("frames", 1, NF) : 1;
    int bigone = MODE == 0 ? (int)symx_pick("bigone", 0, n) : n;  // none or one large frame
    uint64_t last = 0;
    for (int i = 0; i < n; i++) {
      uint8_t d[130];
      memset(d, i, sizeof d);
      d[0] = symx_u8("d");
      uint64_t t = MODE ? 5 : symx_u16("ts");
      symx_assume(t >= last);
      last = t;
      int track = MODE ? 1 : (int)symx_pick("track", 1, 2);
      bool key = MODE || track == 2 || symx_pick("key", 0, 1);
      CHECKM(seg.AddFrame(d, i == bigone ? 90 + i * 10 : 1 + i, track, t, key), "frame");
    }
    if (MODE == 1) for (int i = 1; i < NCUES; i++) CHECK(seg.AddCuePoint(i, 1));
    CHECKM(seg.Finalize(), "finalised");
    uint64_t pos[NCUES];
    if (MODE == 1) {
      for (int i = 0; i < NCUES; i++) {
        CuePoint* c = seg.GetCues()->GetCueByIndex(i);
        CHECK(c);
        uint64_t p = i < NSYM ? symx_u64("pos") : (uint64_t)(200 + 14 * i);
        symx_assume(!(p >> 48));
        c->set_cluster_pos(p);
        c->set_time(i + 1);
        pos[i] = p;
      }
    }
    MemReader r(w.buf, w.end);
    if (MODE == 2) {
      if (symx_pick("which", 0, 1)) { v.counting = true; v.fault_at = symx_u16("fault_at"); }
      else { r.fail_at = symx_pick("rfail", 0, 1); r.fail_code = (int)symx_pick("code", 0, 1) * 2 - 1; }
    }
    bool ok = seg.CopyAndMoveCuesBeforeClusters(&r, &v);
    if (MODE == 2) {
      if (v.failed || r.failed) { CHECKM(!ok, "a failure while moving the cues is reported"); symx_reach("failed"); }
      else { CHECKM(ok, "moved"); symx_reach("moved"); }
      return;
    }
    if (o >= 1 && o <= 3) { CHECKM(!ok, "nothing to move is refused"); symx_reach("refused"); return; }
    CHECKM(ok, "the cues are moved");
    symx_reach("moved");
    if (MODE == 1) {
      // only the index changes: read it
      int64_t cl0 = -1;
      b.read(v.buf, 0, v.end);
      int sk = b.take(-1, 0x18538067), ck = b.take(sk, 0x1C53BB6B);
      (void)cl0;
      CHECKM(b.nd[sk].end == v.end, "the segment ends with the file");
      uint64_t shift = b.nd[ck].end - b.nd[ck].pos;  // what was inserted before the clusters
      int at = 0;
      for (int i = ck + 1; i < b.n; i++) {
        if (b.nd[i].parent != ck) continue;
        CHECKM(b.nd[i].id == 0xBB && at < NCUES, "as many cues");
        b.u(i, 0xB3, at + 1);
        int p = b.take(i, 0xB7);
        b.u(p, 0xF7, 1);
        b.u(p, 0xF1, pos[at] + shift);
        at++;
      }
      CHECKM(at == NCUES, "every cue");
      return;
    }
    a.read(w.buf, 0, w.end);
    b.read(v.buf, 0, v.end);
    int sa = a.take(-1, 0x18538067), sb = b.take(-1, 0x18538067), ca = a.take(sa, 0x1C53BB6B), cb = b.take(sb, 0x1C53BB6B);
    CHECKM(b.nd[sb].end == v.end && a.nd[sa].data == b.nd[sb].data && !b.nd[sb].unk, "the segment fills the file");
    // the children of the segment: the same bytes, except index and seek head
    int ia = 0, ib = 0;
    bool front = false;
    for (;;) {
      while (ia < a.n && (a.nd[ia].parent != sa || ia == ca)) ia++;
      while (ib < b.n && (b.nd[ib].parent != sb || ib == cb)) ib++;
      if (ia >= a.n || ib >= b.n) break;
      CHECKM(a.nd[ia].id == b.nd[ib].id, "the same elements");
      bool fluid = a.nd[ia].id == 0x114D9B74 || a.nd[ia].id == 0xEC;
      if (!fluid) {
        int64_t len = a.nd[ia].end - a.nd[ia].pos;
        CHECKM(len == b.nd[ib].end - b.nd[ib].pos, "the same size");
        for (int64_t k = 0; k < len; k++) CHECKM(w.buf[a.nd[ia].pos + k] == v.buf[b.nd[ib].pos + k], "the same bytes");
      }
      if (a.nd[ia].id == 0x1F43B675) front |= b.nd[ib].pos > b.nd[cb].pos;
      ia++; ib++;
    }
    CHECKM(ia >= a.n && ib >= b.n, "no elements more or less");
    CHECKM(front, "the index is in front");
    for (int64_t k = 0; k < a.nd[sa].pos; k++) CHECKM(w.buf[k] == v.buf[k], "the same header");
    // cues
    int pa = ca + 1, pb = cb + 1;
    for (;;) {
      while (pa < a.n && !(a.nd[pa].parent == ca)) pa++;
      while (pb < b.n && !(b.nd[pb].parent == cb)) pb++;
      if (pa >= a.n || pb >= b.n) break;
      CHECKM(a.uv(a.find(pa, 0xB3)) == b.uv(b.find(pb, 0xB3)), "the time of the cue");
      int qa = a.find(pa, 0xB7), qb = b.find(pb, 0xB7);
      CHECKM(a.uv(a.find(qa, 0xF7)) == b.uv(b.find(qb, 0xF7)), "the track of the cue");
      int na = a.find(qa, 0x5378), nb = b.find(qb, 0x5378);
      CHECKM((na >= 0) == (nb >= 0) && (na < 0 || a.uv(na) == b.uv(nb)), "the block of the cue");
      int xa = cluster_at(a, sa, (int64_t)a.uv(a.find(qa, 0xF1))), xb = cluster_at(b, sb, (int64_t)b.uv(b.find(qb, 0xF1)));
      CHECKM(xa >= 0 && xb >= 0, "a cue points at a cluster");
      CHECKM(ordinal(a, xa) == ordinal(b, xb), "a cue points at the cluster it named before");
      pa++; pb++;
    }
    CHECKM(pa >= a.n && pb >= b.n, "no cues more or less");
    // seek head
    int ha = a.take(sa, 0x114D9B74), hb = b.take(sb, 0x114D9B74), cnt = 0, cntb = 0;
    for (int i = ha + 1; i < a.n; i++) cnt += a.nd[i].parent == ha && a.nd[i].id == 0x4DBB;
    for (int i = hb + 1; i < b.n; i++) if (b.nd[i].parent == hb && b.nd[i].id == 0x4DBB) {
      uint64_t id = b.uv(b.find(i, 0x53AB)), p = b.uv(b.find(i, 0x53AC));
      bool m = false;
      for (int j = 0; j < b.n; j++) if (b.nd[j].parent == sb && b.nd[j].id == id && (uint64_t)(b.nd[j].pos - b.nd[sb].data) == p) m = ordinal(b, j) == 0;
      CHECKM(m, "a seek entry names an element of its kind");
      for (int j = i + 1; j < b.n; j++) if (b.nd[j].parent == hb && b.nd[j].id == 0x4DBB) CHECKM(b.uv(b.find(j, 0x53AB)) != id, "one seek entry of a kind");
      cntb++;
    }
    CHECKM(cnt == cntb, "no seek entries more or less");
  }
}
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  body();
  CHECKM(symx_live() == live0, "no leak");
}
