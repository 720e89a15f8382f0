// The fields of every WebM container with the identifier, kind and default the format gives
// them (Matroska/WebM specification; numeric on purpose, not taken from webm/id.h), as visitors
// over the incremental parser's public structures.
#pragma once
#include <string>
#include <vector>
#include "webm/dom_types.h"
namespace dom {
using namespace webm;
// kinds of leaves
enum Kind { UINT, SINT, FLT, DATE, STR, BIN, BOOL, IDK, SBLK, BLK, VBLK, MASTER };
template <class F> void fields(F& f, const BlockMore* x) { f.uint(0xEE, x ? &x->id : 0, 1); f.bin(0xA5, x ? &x->data : 0); }
template <class F> void fields(F& f, const BlockAdditions* x) { f.reps(0xA6, x ? &x->block_mores : 0); }
template <class F> void fields(F& f, const TimeSlice* x) { f.uint(0xCC, x ? &x->lace_number : 0, 0); }
template <class F> void fields(F& f, const Slices* x) { f.reps(0xE8, x ? &x->slices : 0); }
template <class F> void fields(F& f, const BlockGroup* x) {
  f.block(0xA1, x ? &x->block : 0); f.vblock(0xA2, x ? &x->virtual_block : 0); f.sub(0x75A1, x ? &x->additions : 0); f.uint(0x9B, x ? &x->duration : 0, 0);
  f.sints(0xFB, x ? &x->references : 0); f.sint(0x75A2, x ? &x->discard_padding : 0, 0); f.sub(0x8E, x ? &x->slices : 0);
}
template <class F> void fields(F& f, const Cluster* x) {
  f.uint(0xE7, x ? &x->timecode : 0, 0); f.uint(0xAB, x ? &x->previous_size : 0, 0); f.sblocks(0xA3, x ? &x->simple_blocks : 0); f.reps(0xA0, x ? &x->block_groups : 0);
}
template <class F> void fields(F& f, const Ebml* x) {
  f.uint(0x4286, x ? &x->ebml_version : 0, 1); f.uint(0x42F7, x ? &x->ebml_read_version : 0, 1); f.uint(0x42F2, x ? &x->ebml_max_id_length : 0, 4);
  f.uint(0x42F3, x ? &x->ebml_max_size_length : 0, 8); f.str(0x4282, x ? &x->doc_type : 0, "matroska"); f.uint(0x4287, x ? &x->doc_type_version : 0, 1);
  f.uint(0x4285, x ? &x->doc_type_read_version : 0, 1);
}
template <class F> void fields(F& f, const Info* x) {
  f.uint(0x2AD7B1, x ? &x->timecode_scale : 0, 1000000); f.flt(0x4489, x ? &x->duration : 0, 0); f.date(0x4461, x ? &x->date_utc : 0); f.str(0x7BA9, x ? &x->title : 0, "");
  f.str(0x4D80, x ? &x->muxing_app : 0, ""); f.str(0x5741, x ? &x->writing_app : 0, "");
}
template <class F> void fields(F& f, const Seek* x) { f.id(0x53AB, x ? &x->id : 0); f.uint(0x53AC, x ? &x->position : 0, 0); }
template <class F> void fields(F& f, const Audio* x) {
  f.flt(0xB5, x ? &x->sampling_frequency : 0, 8000); f.flt_like(0x78B5, x ? &x->output_frequency : 0, 0xB5, 8000); f.uint(0x9F, x ? &x->channels : 0, 1);
  f.uint(0x6264, x ? &x->bit_depth : 0, 0);
}
template <class F> void fields(F& f, const MasteringMetadata* x) {
  f.flt(0x55D1, x ? &x->primary_r_chromaticity_x : 0, 0); f.flt(0x55D2, x ? &x->primary_r_chromaticity_y : 0, 0); f.flt(0x55D3, x ? &x->primary_g_chromaticity_x : 0, 0);
  f.flt(0x55D4, x ? &x->primary_g_chromaticity_y : 0, 0); f.flt(0x55D5, x ? &x->primary_b_chromaticity_x : 0, 0); f.flt(0x55D6, x ? &x->primary_b_chromaticity_y : 0, 0);
  f.flt(0x55D7, x ? &x->white_point_chromaticity_x : 0, 0); f.flt(0x55D8, x ? &x->white_point_chromaticity_y : 0, 0); f.flt(0x55D9, x ? &x->luminance_max : 0, 0);
  f.flt(0x55DA, x ? &x->luminance_min : 0, 0);
}
template <class F> void fields(F& f, const Colour* x) {
  f.uint(0x55B1, x ? &x->matrix_coefficients : 0, 2); f.uint(0x55B2, x ? &x->bits_per_channel : 0, 0); f.uint(0x55B3, x ? &x->chroma_subsampling_x : 0, 0);
  f.uint(0x55B4, x ? &x->chroma_subsampling_y : 0, 0); f.uint(0x55B5, x ? &x->cb_subsampling_x : 0, 0); f.uint(0x55B6, x ? &x->cb_subsampling_y : 0, 0);
  f.uint(0x55B7, x ? &x->chroma_siting_x : 0, 0); f.uint(0x55B8, x ? &x->chroma_siting_y : 0, 0); f.uint(0x55B9, x ? &x->range : 0, 0);
  f.uint(0x55BA, x ? &x->transfer_characteristics : 0, 2); f.uint(0x55BB, x ? &x->primaries : 0, 2); f.uint(0x55BC, x ? &x->max_cll : 0, 0);
  f.uint(0x55BD, x ? &x->max_fall : 0, 0); f.sub(0x55D0, x ? &x->mastering_metadata : 0);
}
template <class F> void fields(F& f, const Projection* x) {
  f.uint(0x7671, x ? &x->type : 0, 0); f.bin(0x7672, x ? &x->projection_private : 0); f.flt(0x7673, x ? &x->pose_yaw : 0, 0); f.flt(0x7674, x ? &x->pose_pitch : 0, 0);
  f.flt(0x7675, x ? &x->pose_roll : 0, 0);
}
template <class F> void fields(F& f, const Video* x) {
  f.uint(0x9A, x ? &x->interlaced : 0, 0); f.uint(0x53B8, x ? &x->stereo_mode : 0, 0); f.uint(0x53C0, x ? &x->alpha_mode : 0, 0); f.uint(0xB0, x ? &x->pixel_width : 0, 0);
  f.uint(0xBA, x ? &x->pixel_height : 0, 0); f.uint(0x54AA, x ? &x->pixel_crop_bottom : 0, 0); f.uint(0x54BB, x ? &x->pixel_crop_top : 0, 0);
  f.uint(0x54CC, x ? &x->pixel_crop_left : 0, 0); f.uint(0x54DD, x ? &x->pixel_crop_right : 0, 0); f.uint_like(0x54B0, x ? &x->display_width : 0, 0xB0);
  f.uint_like(0x54BA, x ? &x->display_height : 0, 0xBA); f.uint(0x54B2, x ? &x->display_unit : 0, 0); f.uint(0x54B3, x ? &x->aspect_ratio_type : 0, 0);
  f.flt(0x2383E3, x ? &x->frame_rate : 0, 0); f.sub(0x55B0, x ? &x->colour : 0); f.sub(0x7670, x ? &x->projection : 0);
}
template <class F> void fields(F& f, const ContentEncAesSettings* x) { f.uint(0x47E8, x ? &x->aes_settings_cipher_mode : 0, 1); }
template <class F> void fields(F& f, const ContentEncryption* x) { f.uint(0x47E1, x ? &x->algorithm : 0, 0); f.bin(0x47E2, x ? &x->key_id : 0); f.sub(0x47E7, x ? &x->aes_settings : 0); }
template <class F> void fields(F& f, const ContentEncoding* x) {
  f.uint(0x5031, x ? &x->order : 0, 0); f.uint(0x5032, x ? &x->scope : 0, 1); f.uint(0x5033, x ? &x->type : 0, 0); f.sub(0x5035, x ? &x->encryption : 0);
}
template <class F> void fields(F& f, const ContentEncodings* x) { f.reps(0x6240, x ? &x->encodings : 0); }
template <class F> void fields(F& f, const TrackEntry* x) {
  f.uint(0xD7, x ? &x->track_number : 0, 0); f.uint(0x73C5, x ? &x->track_uid : 0, 0); f.uint(0x83, x ? &x->track_type : 0, 0); f.flag(0xB9, x ? &x->is_enabled : 0, 1);
  f.flag(0x88, x ? &x->is_default : 0, 1); f.flag(0x55AA, x ? &x->is_forced : 0, 0); f.flag(0x9C, x ? &x->uses_lacing : 0, 1); f.uint(0x23E383, x ? &x->default_duration : 0, 0);
  f.str(0x536E, x ? &x->name : 0, ""); f.str(0x22B59C, x ? &x->language : 0, "eng"); f.str(0x86, x ? &x->codec_id : 0, ""); f.bin(0x63A2, x ? &x->codec_private : 0);
  f.str(0x258688, x ? &x->codec_name : 0, ""); f.uint(0x56AA, x ? &x->codec_delay : 0, 0); f.uint(0x56BB, x ? &x->seek_pre_roll : 0, 0); f.sub(0xE0, x ? &x->video : 0);
  f.sub(0xE1, x ? &x->audio : 0); f.sub(0x6D80, x ? &x->content_encodings : 0);
}
template <class F> void fields(F& f, const CueTrackPositions* x) {
  f.uint(0xF7, x ? &x->track : 0, 0); f.uint(0xF1, x ? &x->cluster_position : 0, 0); f.uint(0xF0, x ? &x->relative_position : 0, 0); f.uint(0xB2, x ? &x->duration : 0, 0);
  f.uint(0x5378, x ? &x->block_number : 0, 1);
}
template <class F> void fields(F& f, const CuePoint* x) { f.uint(0xB3, x ? &x->time : 0, 0); f.reps(0xB7, x ? &x->cue_track_positions : 0); }
template <class F> void fields(F& f, const ChapterDisplay* x) { f.str(0x85, x ? &x->string : 0, ""); f.strs(0x437C, x ? &x->languages : 0, "eng", true); f.strs(0x437E, x ? &x->countries : 0, "", false); }
template <class F> void fields(F& f, const ChapterAtom* x) {
  f.uint(0x73C4, x ? &x->uid : 0, 0); f.str(0x5654, x ? &x->string_uid : 0, ""); f.uint(0x91, x ? &x->time_start : 0, 0); f.uint(0x92, x ? &x->time_end : 0, 0);
  f.reps(0x80, x ? &x->displays : 0); f.reps(0xB6, x ? &x->atoms : 0);
}
template <class F> void fields(F& f, const EditionEntry* x) { f.reps(0xB6, x ? &x->atoms : 0); }
template <class F> void fields(F& f, const SimpleTag* x) {
  f.str(0x45A3, x ? &x->name : 0, ""); f.str(0x447A, x ? &x->language : 0, "und"); f.flag(0x4484, x ? &x->is_default : 0, 1); f.str(0x4487, x ? &x->string : 0, "");
  f.bin(0x4485, x ? &x->binary : 0); f.reps(0x67C8, x ? &x->tags : 0);
}
template <class F> void fields(F& f, const Targets* x) { f.uint(0x68CA, x ? &x->type_value : 0, 50); f.str(0x63CA, x ? &x->type : 0, ""); f.uints(0x63C5, x ? &x->track_uids : 0); }
template <class F> void fields(F& f, const Tag* x) { f.sub(0x63C0, x ? &x->targets : 0); f.reps(0x67C8, x ? &x->tags : 0); }
}  // namespace dom
