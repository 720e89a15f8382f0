// One output operation fails (any one of them, once or for good): some call of the history
// must say so, and no memory error or leak may follow.
#define WCAP 3000
#include "mem_writer.h"
#include "mem_reader.h"
using namespace mkvmuxer;
#ifndef META
#define META 0
#endif
#ifndef NF
#define NF 2
#endif
#ifndef ACC
#define ACC 0
#endif
#ifndef HEADER
#define HEADER 0
#endif
#ifndef TSBITS
#define TSBITS 17
#endif
// How it fails is chosen when it fails.
struct FailWriter : MemWriter {
  int32_t Fault() {
    if (sticky && failed) return fail_code;
    if (!counting || ops++ != fault_at) return 0;
    int mode = (int)symx_pick("mode", 0, 2);
    fail_code = mode == 1 ? 1 : -1;
    sticky = mode == 2;
    failed = true;
    return fail_code;
  }
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 n) {
    int32_t f = Fault();
    return f ? f : MemWriter::Write(b, n);
  }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) {
    if (!seekable) return -1;
    int32_t f = Fault();
    return f ? f : MemWriter::Position(p);
  }
  mkvmuxer::int64 Position() const { return pos; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) {
    MemWriter::ElementStartNotify(id, p);
    if (id == 0x1F43B675) counting = true;
  }
  int64_t fault_at;
  bool counting;
};
static FailWriter w;
extern "C" void symx_main() {
  w.counting = META || HEADER;  // else from the first cluster on
  w.fault_at = symx_u16("fault_at");
#if META
  bool live = false;
#else
  // one of the output options, or one frame of a special kind
  int o = (int)symx_pick("option", 0, 7);
  const int kind = o < 4 ? 0 : o - 3, special = kind ? (int)symx_pick("special", 0, NF - 1) : -1;
  bool live = o == 1;
  w.seekable = o != 2;
#endif
  int64_t live0 = symx_live();
  bool all = true;
  {
    Segment seg;
    CHECK(seg.Init(&w));
    SegmentInfo* info = seg.GetSegmentInfo();
    info->set_timecode_scale(1);
    info->set_muxing_app("m");
    info->set_writing_app("w");
    CHECK(seg.AddVideoTrack(64, 48, 1) == 1);
    CHECK(seg.AddAudioTrack(8000, 1, 2) == 2);
#if META
    int part = META == 1 ? 0 : META;
    info->set_date_utc(5);
    if (part == 0 || part == 2) {
      VideoTrack* v = static_cast<VideoTrack*>(seg.GetTrackByNumber(1));
      CHECK(v->SetStereoMode(1) && v->SetAlphaMode(1));
      v->set_display_width(3); v->set_crop_left(1); v->set_crop_right(1); v->set_crop_top(1); v->set_crop_bottom(1);
      v->set_display_height(3); v->set_pixel_width(4); v->set_pixel_height(4);
      v->set_frame_rate(30.0);
      v->set_colour_space("RGBA");
      Colour c;
      c.set_matrix_coefficients(1); c.set_bits_per_channel(8); c.set_chroma_subsampling_horz(1); c.set_chroma_subsampling_vert(1);
      c.set_cb_subsampling_horz(1); c.set_cb_subsampling_vert(1); c.set_chroma_siting_horz(1); c.set_chroma_siting_vert(1);
      c.set_range(1); c.set_transfer_characteristics(1); c.set_primaries(1); c.set_max_cll(1); c.set_max_fall(1);
      MasteringMetadata mm;
      PrimaryChromaticity pc(.25f, .5f);
      CHECK(mm.SetChromaticity(&pc, &pc, &pc, &pc));
      mm.set_luminance_max(100); mm.set_luminance_min(1);
      CHECK(c.SetMasteringMetadata(mm));
      CHECK(v->SetColour(c));
      Projection pr;
      pr.set_type(Projection::kEquirectangular);
      pr.set_pose_yaw(1); pr.set_pose_pitch(1); pr.set_pose_roll(1);
      uint8_t b[3] = {1, 2, 3};
      CHECK(pr.SetProjectionPrivate(b, 3));
      CHECK(v->SetProjection(pr));
    }
    if (part == 0 || part == 3) {
      Track* a = seg.GetTrackByNumber(2);
      uint8_t b[3] = {1, 2, 3};
      CHECK(a->SetCodecPrivate(b, 3));
      a->set_name("n"); a->set_language("en"); a->set_codec_delay(1); a->set_seek_pre_roll(1); a->set_default_duration(1); a->set_max_block_additional_id(2);
      static_cast<AudioTrack*>(a)->set_bit_depth(8);
      CHECK(a->AddContentEncoding());
      CHECK(a->GetContentEncodingByIndex(0)->SetEncryptionID(b, 3));
    }
    if (part == 0 || part == 4) {
      Chapter* ch = seg.AddChapter();
      CHECK(ch && ch->set_id("c"));
      ch->set_uid(7); ch->set_time(seg, 1, 2);
      CHECK(ch->add_string("t", "en", "us"));
      Tag* t = seg.AddTag();
      CHECK(t && t->add_simple_tag("k", "v"));
    }
    const int n = 1;
#else
    if (live) seg.set_mode(Segment::kLive);
    if (o == 3) seg.UseFixedSizeClusterTimecode(true);
    if (ACC) seg.AccurateClusterDuration(true);
    const int n = NF;
#endif
    for (int i = 0; i < n; i++) {
      uint8_t d[3] = {1, 2, 3};
      Frame f;
      CHECK(f.Init(d, 1 + i));
#if META
      f.set_track_number(1);
      f.set_is_key(true);
#else
      int k = i == special ? kind : 0;
      f.set_track_number(symx_pick("track", 1, 2));
      f.set_is_key(f.track_number() == 2 || symx_pick("key", 0, 1));
      uint32_t t = symx_u32("ts");
      symx_assume(!(t >> TSBITS));
      f.set_timestamp(t);
      if (k == 1 || k == 4) f.set_duration(9);
      if (k == 2 || k == 4) CHECK(f.AddAdditionalData(d, 2, 1));
      if (k == 3 || k == 4) f.set_discard_padding(-5);
#endif
      if (!seg.AddGenericFrame(&f)) all = false;
      if (w.failed) symx_reach("failed in a frame or later");
    }
    if (!seg.Finalize()) all = false;
    if (w.failed) {
      symx_reach("failed");
      CHECKM(!all, "a failed output operation is reported");
      seg.Finalize();
    } else symx_reach("not failed");
  }
  CHECKM(symx_live() == live0, "no leak");
}
