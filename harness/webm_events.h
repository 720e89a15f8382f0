// Event log of the incremental parser's callbacks.
#pragma once
#include <string.h>
#include "webm_src.h"
#include "webm/callback.h"
#include "webm/dom_types.h"
#include "webm/webm_parser.h"
enum Kind { K_BEGIN = 1, K_UNKNOWN, K_EBML, K_VOID, K_SEGB, K_SEGE, K_SEEK, K_INFO, K_CLB, K_CLE, K_SBB, K_SBE, K_BGB, K_BGE, K_BB, K_BE, K_FRAME, K_TRACK, K_CUE, K_EDITION, K_TAG };
struct Ev {
  int kind;
  uint64_t id, hdr, size, pos;   // element metadata (frames: block id, block header size, frame size, frame position)
  uint64_t v[6];                 // values of interest
};
#ifndef MAXEV
#define MAXEV 48
#endif
struct Rec : webm::Callback {
  typedef webm::Status S;
  typedef webm::ElementMetadata M;
  Ev ev[MAXEV];
  int n = 0;
  uint8_t bytes[160];            // frame and unknown/void content in delivery order
  int nb = 0;
  bool content = false;          // read content instead of skipping it
  // answers: skip_at[i] makes the i-th question (OnElementBegin and *Begin calls) answer kSkip
  uint32_t skips = 0;
  int questions = 0;
  // refuse: the i-th event is first answered with a pause
  int pause_at = -1, err_at = -1, calls = 0, err_code = -1;
  bool paused = false;
  Ev* add(int kind, const M& m) {
    CHECKM(n < MAXEV, "event log full");
    Ev* e = &ev[n++];
    memset(e, 0, sizeof *e);
    e->kind = kind; e->id = (uint64_t)m.id; e->hdr = m.header_size; e->size = m.size; e->pos = m.position;
    return e;
  }
  bool stop(S* s) {
    int c = calls++;
    if (c == pause_at) { paused = true; *s = S(S::kOkPartial); calls = c + 1; return true; }
    if (c == err_at) { *s = S(err_code); return true; }
    return false;
  }
  S ask(webm::Action* a) {
    *a = questions < 32 && (skips >> questions & 1) ? webm::Action::kSkip : webm::Action::kRead;
    questions++;
    return S(S::kOkCompleted);
  }
  S body(webm::Reader* r, uint64_t* rem) {
    if (!content) return Skip(r, rem);
    S st(S::kOkCompleted);
    while (*rem) {
      uint64_t got = 0, want = *rem < 16 ? *rem : 16;
      want = symx_concretize(want);
      CHECKM(nb + (int)want <= (int)sizeof bytes, "content buffer full");
      st = r->Read(want, bytes + nb, &got);
      nb += (int)got;
      *rem -= got;
      if (st.code == S::kOkPartial) continue;
      if (!st.completed_ok()) return st;
    }
    return st;
  }
  S OnElementBegin(const M& m, webm::Action* a) override { S s; if (stop(&s)) return s; add(K_BEGIN, m); return ask(a); }
  S OnUnknownElement(const M& m, webm::Reader* r, uint64_t* rem) override { S s; if (stop(&s)) return s; uint64_t left = *rem; S st = body(r, rem); if (st.completed_ok()) add(K_UNKNOWN, m); (void)left; return st; }
  S OnVoid(const M& m, webm::Reader* r, uint64_t* rem) override { S s; if (stop(&s)) return s; S st = body(r, rem); if (st.completed_ok()) add(K_VOID, m); return st; }
  S OnEbml(const M& m, const webm::Ebml& x) override { S s; if (stop(&s)) return s; Ev* e = add(K_EBML, m); e->v[0] = x.ebml_version.value(); e->v[1] = x.doc_type_version.value(); e->v[2] = x.doc_type.value().size(); return S(S::kOkCompleted); }
  S OnSegmentBegin(const M& m, webm::Action* a) override { S s; if (stop(&s)) return s; add(K_SEGB, m); return ask(a); }
  S OnSegmentEnd(const M& m) override { S s; if (stop(&s)) return s; add(K_SEGE, m); return S(S::kOkCompleted); }
  S OnSeek(const M& m, const webm::Seek& x) override { S s; if (stop(&s)) return s; Ev* e = add(K_SEEK, m); e->v[0] = (uint64_t)x.id.value(); e->v[1] = x.position.value(); return S(S::kOkCompleted); }
  S OnInfo(const M& m, const webm::Info& x) override { S s; if (stop(&s)) return s; Ev* e = add(K_INFO, m); e->v[0] = x.timecode_scale.value(); e->v[1] = x.timecode_scale.is_present(); e->v[2] = x.title.value().size(); return S(S::kOkCompleted); }
  static void cluster(Ev* e, const webm::Cluster& c) { e->v[0] = c.timecode.value(); e->v[1] = c.timecode.is_present(); e->v[2] = c.previous_size.value(); e->v[3] = c.simple_blocks.size(); e->v[4] = c.block_groups.size(); }
  S OnClusterBegin(const M& m, const webm::Cluster& c, webm::Action* a) override { S s; if (stop(&s)) return s; cluster(add(K_CLB, m), c); return ask(a); }
  S OnClusterEnd(const M& m, const webm::Cluster& c) override { S s; if (stop(&s)) return s; cluster(add(K_CLE, m), c); return S(S::kOkCompleted); }
  static void block(Ev* e, const webm::Block& b) { e->v[0] = b.track_number; e->v[1] = (uint64_t)(int64_t)b.timecode; e->v[2] = (uint64_t)b.num_frames; e->v[3] = (uint64_t)b.lacing; e->v[4] = b.is_visible; }
  static void simple(Ev* e, const webm::SimpleBlock& b) { block(e, b); e->v[5] = b.is_key_frame * 2 + b.is_discardable; }
  S OnSimpleBlockBegin(const M& m, const webm::SimpleBlock& b, webm::Action* a) override { S s; if (stop(&s)) return s; simple(add(K_SBB, m), b); return ask(a); }
  S OnSimpleBlockEnd(const M& m, const webm::SimpleBlock& b) override { S s; if (stop(&s)) return s; simple(add(K_SBE, m), b); return S(S::kOkCompleted); }
  S OnBlockGroupBegin(const M& m, webm::Action* a) override { S s; if (stop(&s)) return s; add(K_BGB, m); return ask(a); }
  S OnBlockGroupEnd(const M& m, const webm::BlockGroup& g) override {
    S s; if (stop(&s)) return s;
    Ev* e = add(K_BGE, m); e->v[0] = g.block.is_present(); e->v[1] = g.duration.value(); e->v[2] = g.duration.is_present();
    e->v[3] = g.virtual_block.is_present() ? g.virtual_block.value().track_number + 1 : 0; e->v[4] = (uint64_t)(int64_t)g.virtual_block.value().timecode;
    e->v[5] = g.references.size();
    return S(S::kOkCompleted);
  }
  S OnBlockBegin(const M& m, const webm::Block& b, webm::Action* a) override { S s; if (stop(&s)) return s; block(add(K_BB, m), b); return ask(a); }
  S OnBlockEnd(const M& m, const webm::Block& b) override { S s; if (stop(&s)) return s; block(add(K_BE, m), b); return S(S::kOkCompleted); }
  S OnFrame(const webm::FrameMetadata& f, webm::Reader* r, uint64_t* rem) override {
    S s; if (stop(&s)) return s;
    uint64_t at = r->Position(), left = *rem;
    S st = body(r, rem);
    if (st.completed_ok()) { Ev* e = add(K_FRAME, f.parent_element); e->size = f.size; e->pos = f.position; e->v[0] = f.parent_element.size; e->v[1] = f.parent_element.position; e->v[2] = at + left; }
    return st;
  }
  S OnTrackEntry(const M& m, const webm::TrackEntry& t) override { S s; if (stop(&s)) return s; Ev* e = add(K_TRACK, m); e->v[0] = t.track_number.value(); e->v[1] = t.codec_id.value().size(); e->v[2] = t.video.is_present() ? t.video.value().pixel_width.value() : 0; return S(S::kOkCompleted); }
  S OnCuePoint(const M& m, const webm::CuePoint& c) override { S s; if (stop(&s)) return s; Ev* e = add(K_CUE, m); e->v[0] = c.time.value(); e->v[1] = c.cue_track_positions.size(); if (c.cue_track_positions.size()) e->v[2] = c.cue_track_positions[0].value().cluster_position.value(); return S(S::kOkCompleted); }
  S OnEditionEntry(const M& m, const webm::EditionEntry& c) override { S s; if (stop(&s)) return s; Ev* e = add(K_EDITION, m); e->v[0] = c.atoms.size(); return S(S::kOkCompleted); }
  S OnTag(const M& m, const webm::Tag& t) override { S s; if (stop(&s)) return s; Ev* e = add(K_TAG, m); e->v[0] = t.tags.size(); return S(S::kOkCompleted); }
};
static inline bool sameEv(const Ev& a, const Ev& b) {
  bool ok = a.kind == b.kind && a.id == b.id && a.hdr == b.hdr && a.size == b.size && a.pos == b.pos;
  for (int i = 0; i < 6; i++) ok = ok & (a.v[i] == b.v[i]);
  return ok;
}
