// Histories of muxing calls: free timestamps, flags and options; the file is read back by an
// independent reader and compared with what was accepted.  PROP selects whose claims are checked
// (6 content, 7 timing, 8 structure); the others only guide the reading.
#define MAXNODES 200
#ifndef WCAP
#define WCAP 2000
#endif
#include "mux_tree.h"
#include "mem_writer.h"
#include "mem_reader.h"
using namespace mkvmuxer;
#ifndef PROP
#define PROP 6
#endif
#ifndef NF
#define NF 3
#endif
#ifndef TRK      // 0 video+audio, 1 audio only, 2 two videos and an audio, 3 video only, 4 audio before video
#define TRK 0
#endif
#ifndef KINDS    // bit set of frame kinds: 1 simple, 2 duration, 4 additional, 8 discard padding, 16 all three
#define KINDS 1
#endif
#ifndef NONKEYA  // audio frames may be non-key
#define NONKEYA 0
#endif
#ifndef ACC
#define ACC 0
#endif
#ifndef FORCE
#define FORCE 0
#endif
#ifndef LIMD     // free duration limit
#define LIMD 0
#endif
#ifndef LIMS     // free size limit
#define LIMS 0
#endif
#ifndef OPT      // free output options
#define OPT 0
#endif
#ifndef SCALE
#define SCALE 1
#endif
#ifndef TSBITS
#define TSBITS 17
#endif
#ifndef BIGLEN
#define BIGLEN 0
#endif
#ifndef USERDUR  // the caller sets the duration (keeps floating point out of the solver)
#define USERDUR 0
#endif
#ifndef ORDERED
#define ORDERED 0
#endif
#define P6(c, m) do { if (PROP == 6) CHECKM(c, m); } while (0)
#define P7(c, m) do { if (PROP == 7) CHECKM(c, m); } while (0)
#define P8(c, m) do { if (PROP == 8) CHECKM(c, m); } while (0)
struct Fr {
  int track, kind, len, alen;
  bool key, accepted, direct, forced;
  uint64_t ts, dur;
  int64_t pad;
  uint8_t data[132], add[8];
};
static Fr fr[NF + 1];
static Tree tree;
static MemWriter w;
static uint64_t tick(uint64_t ns) { return SCALE == 1 ? ns : ns / SCALE; }
struct Blk { int node, cl, track, fi; uint64_t t; bool key, simple; int64_t start, end, index; };
static Blk blk[NF + 1];
static int nblk;
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    Segment seg;
    CHECK(seg.Init(&w));
    seg.GetSegmentInfo()->set_timecode_scale(SCALE);
    seg.GetSegmentInfo()->set_muxing_app("m");
    seg.GetSegmentInfo()->set_writing_app("w");
    const bool hasV = TRK != 1;
    int aud = 0, aud2 = -1, vid = 0, vid2 = 0;
    if (TRK == 0 || TRK == 2 || TRK == 3) { vid = (int)seg.AddVideoTrack(64, 48, 1); CHECK(vid == 1); }
    if (TRK == 2) { vid2 = (int)seg.AddVideoTrack(64, 48, 5); CHECK(vid2 == 5); }
    if (TRK == 0 || TRK == 2) { aud = (int)seg.AddAudioTrack(8000, 1, 0); CHECK(aud == (TRK ? 3 : 2)); }
    if (TRK == 1) { aud = (int)seg.AddAudioTrack(8000, 1, 0); CHECK(aud == 1); }
    if (TRK == 5) { CHECK(seg.AddVideoTrack(64, 48, 0) == 1); vid = 1; aud = (int)seg.AddAudioTrack(8000, 1, 0); aud2 = (int)seg.AddAudioTrack(8000, 1, 0); CHECK(aud == 2 && aud2 == 3); }
    if (TRK == 4) { aud = (int)seg.AddAudioTrack(8000, 1, 3); CHECK(aud == 3); vid = (int)seg.AddVideoTrack(64, 48, 126); CHECK(vid == 126); }
    bool live = false, cues = true, fixedtc = false, estimate = false, meta = false, userdur = USERDUR;
    int cuestrack = vid ? vid : aud;
    uint64_t maxd = 30000000000ull, maxs = 0;
    if (OPT) {
      int o = OPT == 2 ? 5 * (int)symx_pick("option", 0, 1) : (int)symx_pick("option", 0, 8);
      live = o == 1;
      w.seekable = o != 2;
      cues = o != 3;
      fixedtc = o == 4;
      estimate = o == 5;
      if (o == 6 && aud && vid) cuestrack = aud;
      meta = o == 8;
      if (o == 7) userdur = !USERDUR;
    }
    if (meta) {
      Chapter* ch = seg.AddChapter();
      CHECK(ch && ch->set_id("c"));
      ch->set_time(seg, 1, 2);
      Tag* t = seg.AddTag();
      CHECK(t && t->add_simple_tag("k", "v"));
    }
    if (live) seg.set_mode(Segment::kLive);
    if (!cues) seg.OutputCues(false);
    if (fixedtc) seg.UseFixedSizeClusterTimecode(true);
    if (ACC) seg.AccurateClusterDuration(true);
    if (estimate) seg.set_estimate_file_duration(true);
    if (userdur) seg.set_duration(77.0);
    if (cuestrack != (vid ? vid : aud)) CHECK(seg.CuesTrack(cuestrack));
    CHECK(!seg.CuesTrack(77));
    if (LIMD) { maxd = symx_u16("maxd"); symx_assume(maxd >= 1); maxd *= SCALE; seg.set_max_cluster_duration(maxd); }
    if (LIMS) { maxs = symx_u16("maxs"); symx_assume(maxs >= 1 && maxs < 80); seg.set_max_cluster_size(maxs); }
    // the schedule
    uint64_t last = 0, maxts = 0, tlast[128] = {0};
    int n = (int)symx_pick("frames", NF > 1 ? 1 : 0, NF);
    bool any_force = false;
    int special = KINDS != 1 ? (int)symx_pick("special", 0, n - 1) : -1;  // the frame of a free kind
    for (int i = 0; i < n; i++) {
      Fr& f = fr[i];
      int pick = TRK == 0 || TRK == 4 ? (int)symx_pick("track", 0, 1) : TRK == 2 || TRK == 5 ? (int)symx_pick("track", 0, 2) : 0;
      f.track = TRK == 1 ? aud : TRK == 3 ? vid : pick == 0 ? vid : pick == 1 ? aud : TRK == 5 ? aud2 : vid2;
      f.key = (f.track == aud || f.track == aud2) && !NONKEYA ? true : (bool)symx_pick("key", 0, 1);
      int nk = __builtin_popcount(KINDS), k = nk > 1 && i == special ? (int)symx_pick("kind", 0, nk - 1) : 0;
      for (int b = 0; b < 5; b++) if (KINDS >> b & 1) { if (k == 0) { f.kind = b; break; } k--; }
      f.len = BIGLEN && symx_pick("big", 0, 1) ? 122 + i : 1 + i;
      for (int j = 0; j < f.len; j++) f.data[j] = j < 2 ? symx_u8("d") : 0x5A;
      uint32_t t = symx_u32("ts");
      symx_assume(!(t >> TSBITS));
      f.ts = SCALE == 1 ? t : (uint64_t)t * SCALE + (SCALE - 1) * (uint64_t)(i & 1);
      if (ORDERED) symx_assume(f.ts >= maxts);
      f.dur = 0; f.pad = 0; f.alen = 0;
      if (f.kind == 1 || f.kind == 4) { f.dur = (uint64_t)symx_u8("dur") * SCALE; }
      if (f.kind == 2 || f.kind == 4) { f.alen = 2 + i; symx_bytes(f.add, f.alen, "add"); }
      if (f.kind == 3 || f.kind == 4) { f.pad = (int8_t)symx_u8("pad"); symx_assume(f.pad != 0); }
      f.forced = FORCE && symx_pick("force", 0, 1);
      if (f.forced) { seg.ForceNewClusterOnNextFrame(); any_force = true; }
      bool ok;
      if (f.kind == 0) ok = seg.AddFrame(f.data, f.len, f.track, f.ts, f.key);
      else if (f.kind == 1 && f.key) ok = seg.AddMetadata(f.data, f.len, f.track, f.ts, f.dur);
      else if (f.kind == 2) ok = seg.AddFrameWithAdditional(f.data, f.len, f.add, f.alen, 1 + i, f.track, f.ts, f.key);
      else if (f.kind == 3) ok = seg.AddFrameWithDiscardPadding(f.data, f.len, f.pad, f.track, f.ts, f.key);
      else {
        Frame g;
        CHECK(g.Init(f.data, f.len));
        if (f.alen) CHECK(g.AddAdditionalData(f.add, f.alen, 1 + i));
        g.set_track_number(f.track); g.set_timestamp(f.ts); g.set_is_key(f.key);
        if (f.pad) g.set_discard_padding(f.pad);
        g.set_duration(f.dur);
        ok = seg.AddGenericFrame(&g);
      }
      f.accepted = ok;
      // in order of time overall: nothing to refuse
      P6(!(f.ts >= maxts) || ok, "a frame offered in order of time is accepted");
      if (ok) {
        P7(f.ts >= tlast[f.track], "a frame that goes back in its track is refused");
        tlast[f.track] = f.ts;
        if (f.ts > maxts) maxts = f.ts;
      } else symx_reach("refused");
    }
    int nacc = 0;
    for (int i = 0; i < n; i++) nacc += fr[i].accepted;
    bool fin = seg.Finalize();
    if (nacc) P6(fin, "finalisation succeeds");
    if (!fin) symx_stop();
    P8(nacc > 0, "a file without frames is not finalised");
    symx_reach("finalized");
    // the file
    tree.read(w.buf, 0, w.end);
    const bool sized = !live && w.seekable;
    int hk = tree.take(-1, 0x1A45DFA3), sk = tree.take(-1, 0x18538067);
    for (int i = 0; i < tree.n; i++) P8(tree.nd[i].parent >= 0 || i == hk || i == sk, "header and segment only");
    const int64_t base = tree.nd[sk].data;
    P8(tree.nd[sk].unk == !sized, "the segment has its size");
    P8(tree.nd[sk].end == w.end && tree.nd[hk].end == tree.nd[sk].pos, "the segment ends with the file");
    int metas = 0, cl[NF + 2], ncl = 0, seek = -1, cuek = -1, info = -1, trk = -1;
    for (int i = 0; i < tree.n; i++) {
      if (tree.nd[i].parent != sk) continue;
      switch (tree.nd[i].id) {
        case 0x114D9B74: P8(seek < 0 && cuek < 0 && !ncl, "one seek head, first"); seek = i; break;
        case 0x1549A966: P8(info < 0 && !ncl, "one information"); info = i; break;
        case 0x1654AE6B: P8(trk < 0 && !ncl, "one track list"); trk = i; break;
        case 0x1F43B675: P8(cuek < 0 && ncl < NF + 1, "clusters before the index"); if (ncl <= NF) cl[ncl++] = i; break;
        case 0x1C53BB6B: P8(cuek < 0, "one index"); cuek = i; break;
        case 0xEC: break;
        case 0x1043A770: case 0x1254C367: P8(meta && !ncl, "chapters and tags"); metas++; break;
        default: P8(false, "an element of the segment is known");
      }
    }
    P8(info >= 0 && trk >= 0, "information and tracks are there");
    P8((cuek >= 0) == (cues && !live), "the index is there when asked for");
    P8((seek >= 0) == sized, "the seek head is there when it can be");
    // blocks
    uint64_t ct[NF + 2];
    nblk = 0;
    for (int c = 0; c < ncl; c++) {
      // a cluster left open (live mode) keeps its unknown size
      if (w.seekable && (!live || ACC || c + 1 < ncl)) P8(!tree.nd[cl[c]].unk, "a finished cluster has its size");
      bool first = true;
      int idx = 0;
      for (int i = cl[c] + 1; i < tree.n && tree.nd[i].pos < tree.nd[cl[c]].end; i++) {
        Tree::Node& b = tree.nd[i];
        if (b.parent != cl[c]) continue;
        if (first) { P7(b.id == 0xE7, "a cluster begins with its time"); ct[c] = tree.uv(i); first = false; if (fixedtc) P8(b.end - b.data == 8, "fixed size time"); continue; }
        P6(b.id == 0xA3 || b.id == 0xA0, "blocks only");
        P6(nblk < nacc, "no more blocks than accepted frames");
        if (nblk >= nacc) symx_stop();
        int bk = b.id == 0xA3 ? i : tree.find(i, 0xA1);
        P6(bk >= 0, "a block group holds a block");
        if (bk < 0) symx_stop();
        const uint8_t* q = w.buf + tree.nd[bk].data;
        Blk& x = blk[nblk++];
        int64_t len = tree.nd[bk].end - tree.nd[bk].data;
        P6(len > 4 && (q[0] & 0x80) && !(q[3] & 0x7F), "block header");
        int64_t rel = (int16_t)ref::be(q + 1, 2);
        P7(rel >= 0, "block offsets are not negative");
        x = {bk, c, q[0] & 0x7F, -1, ct[c] + rel, false, b.id == 0xA3, b.pos, b.end, ++idx};
        x.key = x.simple ? (q[3] & 0x80) : tree.find(i, 0xFB) < 0;
        if (!x.simple) P6(!(q[3] & 0x80), "no key flag in a block group");
      }
      P7(!first, "a cluster has its time");
      if (c) P7(ct[c] >= ct[c - 1], "cluster times do not decrease");
      P7(idx > 0, "a cluster holds a block");
    }
    // content: the k-th block of a track is the k-th accepted frame of the track
    P6(nblk == nacc, "every accepted frame is stored once");
    for (int k = 0; k < nblk; k++) {
      int seen = 0;
      for (int j = 0; j < k; j++) seen += blk[j].track == blk[k].track;
      for (int i = 0; i < n; i++) if (fr[i].accepted && fr[i].track == blk[k].track && !seen--) { blk[k].fi = i; break; }
      P6(blk[k].fi >= 0, "a block belongs to an accepted frame");
      if (blk[k].fi < 0) symx_stop();
      Fr& f = fr[blk[k].fi];
      const uint8_t* q = w.buf + tree.nd[blk[k].node].data;
      int64_t len = tree.nd[blk[k].node].end - tree.nd[blk[k].node].data - 4;
      P6(len == f.len, "payload length");
      for (int j = 0; j < f.len; j++) P6(q[4 + j] == f.data[j], "payload");
      P6(blk[k].key == f.key, "key flag");
      P6(blk[k].t == tick(f.ts), "time");
      bool lastOfTrack = true;
      for (int j = k + 1; j < nblk; j++) if (blk[j].cl == blk[k].cl && blk[j].track == blk[k].track) lastOfTrack = false;
      bool mayext = ACC && lastOfTrack && blk[k].cl + 1 < ncl && f.kind != 1 && f.kind != 4;
      bool group = f.kind > 1 || f.dur;
      if (!mayext) P6(blk[k].simple == !group, "kind of block");
      if (!blk[k].simple) {
        int g = tree.nd[blk[k].node].parent;
        int d = tree.find(g, 0x9B), ba = tree.find(g, 0x75A1), dp = tree.find(g, 0x75A2);
        if (!mayext) P6(d >= 0 ? tree.uv(d) == tick(f.dur) : tick(f.dur) == 0, "duration");
        else if (d >= 0) {
          bool m = false;
          for (int j = 0; j < n; j++) m |= fr[j].accepted && fr[j].ts >= f.ts && tree.uv(d) == tick(fr[j].ts - f.ts);
          P6(m, "duration up to the next cluster");
        }
        P6(dp >= 0 ? f.pad && ref::sbe(w.buf + tree.nd[dp].data, (int)(tree.nd[dp].end - tree.nd[dp].data)) == f.pad : !f.pad, "discard padding");
        P6((ba >= 0) == (f.alen > 0), "additional data there");
        if (ba >= 0 && PROP == 6) {
          int bm = tree.take(ba, 0xA6);
          tree.u(bm, 0xEE, 1 + blk[k].fi);
          tree.bytes(bm, 0xA5, f.add, f.alen);
        }
        for (int i = g + 1; i < tree.n && tree.nd[i].parent >= g; i++)
          if (tree.nd[i].parent == g) { uint32_t id = tree.nd[i].id; P6(id == 0xA1 || id == 0x75A1 || id == 0x75A2 || id == 0xFB || id == 0x9B, "nothing else in a block group"); }
      }
    }
    // timing
    if (PROP == 7) for (int k = 0; k < nblk; k++) {
      Fr& f = fr[blk[k].fi];
      for (int j = 0; j < k; j++) {
        if (blk[j].track == blk[k].track) P7(blk[j].t <= blk[k].t, "times of a track do not decrease");
      }
      bool held = hasV && (f.track == aud || f.track == aud2);  // held back to the next video frame
      bool firstInCluster = k == 0 || blk[k - 1].cl != blk[k].cl;
      int prevdirect = -1;                 // last block of the cluster before k that was not held back
      for (int j = 0; j < k; j++) if (blk[j].cl == blk[k].cl && !(hasV && (blk[j].track == aud || blk[j].track == aud2))) prevdirect = j;
      if (!held && !firstInCluster && !any_force) {
        // the cluster existed when the frame was offered unless only held frames precede it
        if (f.key && f.track != aud && f.track != aud2) P7(prevdirect < 0, "a video key frame begins a cluster");
        if (prevdirect >= 0 || !hasV) {
          P7((tick(f.ts) - ct[blk[k].cl]) * SCALE < maxd, "a cluster does not exceed its duration limit");
          if (maxs && !ACC) P7((uint64_t)(blk[prevdirect].end - tree.nd[cl[blk[k].cl]].data) < maxs, "a cluster does not exceed its size limit");
        }
      }
      if (f.forced) for (int j = 0; j < k; j++) {
        // what was stored directly before the forced frame lies in earlier clusters
        if (blk[j].fi < blk[k].fi && !(hasV && (blk[j].track == aud || blk[j].track == aud2))) P7(blk[j].cl < blk[k].cl, "a forced cluster begins");
      }
      if (!held && !any_force && firstInCluster && blk[k].cl > 0) {
        // a reason to begin it (no needless clusters): compared with the cluster before
        int pc = blk[k].cl - 1;
        int64_t stored = 0;
        for (int j = 0; j < k; j++) if (blk[j].cl == pc && !(hasV && (blk[j].track == aud || blk[j].track == aud2))) stored = blk[j].end - tree.nd[cl[pc]].data;
        int64_t whole = tree.nd[cl[pc]].end - tree.nd[cl[pc]].data;
        (void)stored;
        P7((f.key && f.track != aud && f.track != aud2) || (tick(f.ts) - ct[pc]) * SCALE >= maxd || (maxs && (uint64_t)whole >= maxs) || tick(f.ts) - ct[pc] > 32767 || (TRK == 2 || hasV), "a cluster begins for a reason");
      }
    }
    // structure
    if (PROP == 8) {
      if (seek >= 0) {
        int found = 0;
        for (int i = seek + 1; i < tree.n && tree.nd[i].pos < tree.nd[seek].end; i++) {
          if (tree.nd[i].parent != seek) continue;
          if (tree.nd[i].id == 0xEC) continue;
          CHECKM(tree.nd[i].id == 0x4DBB, "seek entries");
          int a = tree.take(i, 0x53AB), b = tree.take(i, 0x53AC);
          uint64_t id = tree.uv(a), pos = tree.uv(b);
          bool m = false;
          for (int j = 0; j < tree.n; j++) if (tree.nd[j].parent == sk && tree.nd[j].id == id && (uint64_t)(tree.nd[j].pos - base) == pos) m = true;
          CHECKM(m, "a seek entry names an element of its kind");
          found++;
        }
        CHECKM(metas == 2 * meta && found == 3 + (cuek >= 0) + metas, "every part has its seek entry");
      }
      if (cuek >= 0) {
        // one cue for the first frame of the cue track in each cluster
        int want[NF + 2], nw = 0;
        for (int c = 0; c < ncl; c++) {
          int b = -1;
          for (int k = 0; k < nblk; k++) if (b < 0 && blk[k].cl == c && blk[k].track == cuestrack) b = k;
          if (b >= 0) want[nw++] = b;
        }
        int at = 0;
        for (int i = cuek + 1; i < tree.n; i++) {
          if (tree.nd[i].parent != cuek) continue;
          CHECKM(tree.nd[i].id == 0xBB, "cue points only");
          CHECKM(at < nw, "a cue for the first block of its track in a cluster");
          if (at >= nw) symx_stop();
          Blk& b = blk[want[at++]];
          tree.u(i, 0xB3, b.t);
          int p = tree.take(i, 0xB7);
          tree.u(p, 0xF7, cuestrack);
          tree.u(p, 0xF1, tree.nd[cl[b.cl]].pos - base);
          int bn = tree.find(p, 0x5378);
          uint64_t no = bn >= 0 ? tree.uv(bn) : 1;
          CHECKM(no == (uint64_t)b.index, "a cue names the number of its block");
        }
        CHECKM(at == nw, "every cluster with a frame of the track has its cue");
        symx_reach("cued");
      }
      int dk = tree.find(info, 0x4489);
      CHECKM((dk >= 0) == (sized), "the duration is stored");
      if (dk >= 0) {
        uint32_t got = (uint32_t)tree.uv(dk);
        bool m = false;
        for (int i = 0; i < n; i++) if (fr[i].accepted && fr[i].ts == maxts) {
          double d = ((double)fr[i].ts + fr[i].dur) / SCALE;
          if (userdur) d = 77.0;
          float ff = (float)d;
          uint32_t v;
          memcpy(&v, &ff, 4);
          m |= got == v || (d <= 0 && got == 0x3F800000);  // a duration of nothing is left as first written
        }
        if (estimate && !userdur && !m) {
          // each track of two or more frames is taken to go on at its mean distance
          for (int t = 1; t < 127; t++) {
            int cnt = 0;
            for (int i = 0; i < n; i++) cnt += fr[i].accepted && fr[i].track == t;
            if (cnt < 2) continue;
            double l = (double)tlast[t], d = (l + l / (cnt - 1)) / SCALE;
            float ff = (float)d;
            uint32_t v;
            memcpy(&v, &ff, 4);
            m |= got == v;
            uint32_t lo;
            float gf;
            memcpy(&gf, &got, 4);
            (void)lo;
            CHECKM(gf >= ff, "the estimated duration covers every track");
          }
        }
        CHECKM(m, "the duration ends with the last frame");
      }
    }
    if (ncl > 1) symx_reach("clusters");
  }
  if (PROP == 6) CHECKM(symx_live() == live0, "no leak");
}
