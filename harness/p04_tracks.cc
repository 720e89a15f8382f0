// Track descriptions through Tracks::Write, read back element by element and with the demuxer.
#define WCAP 1200
#include "mux_tree.h"
#include "mem_writer.h"
#include "mem_reader.h"
#include "mkvparser/mkvparser.h"
using namespace mkvmuxer;
#ifndef FREEF
#define FREEF 1
#endif
// Each integer field is: the fully free one, absent, or one small free value.
static int freeField, freeField2, others, nfield = 0;
static bool small_only = true;   // the demuxer holds values in signed 64 bits
static bool present(bool* full) {
  int k = nfield++;
  *full = k == freeField;
  if (*full || k == freeField2) return true;
  return others == 1;
}
static uint64_t val(const char* name, uint64_t absent, uint64_t lo = 1) {
  bool full;
  if (!present(&full)) return absent;
  uint64_t v;
  if (full) { v = symx_u64(name); symx_assume(v >= lo); if (v >> 63) small_only = false; }
  else { v = symx_u8(name); symx_assume(v >= lo); }
  return v;
}
static uint64_t val_max(const char* name, uint64_t absent, uint64_t lo, uint64_t hi) {
  bool full;
  if (!present(&full)) return absent;
  uint64_t v = symx_u8(name);
  symx_assume(v >= lo && v <= hi);
  return v;
}
static float flt(const char* name, float absent, float lo, float hi) {
  bool full;
  if (!present(&full)) return absent;
  uint32_t b = full ? symx_u32(name) : 0x3E800000;  // 0.25
  float v;
  memcpy(&v, &b, 4);
  symx_assume(v >= lo && v <= hi);
  if (v != 0 && v < 1.17549435e-38f && v > -1.17549435e-38f) small_only = false;  // the demuxer takes no denormals
  return v;
}
static const char* text(const char* name, char* buf, int max) {
  bool full;
  if (!present(&full)) return nullptr;
  int n = full ? (int)symx_pick("textlen", 0, max) : 1;
  if (max > 3 && n > 3) n = 122 + n;  // 126..
  for (int i = 0; i < n; i++) { uint8_t c = symx_u8(name); symx_assume(c); buf[i] = (char)c; }
  buf[n] = 0;
  return buf;
}
static int blob(const char* name, uint8_t* buf, int max) {
  bool full;
  if (!present(&full)) return 0;
  int n = full ? (int)symx_pick("bloblen", 1, max) : 2;
  if (max > 3 && n > 3) n = 122 + n;
  symx_bytes(buf, n, name);
  return n;
}
struct Common {
  uint64_t uid, type, addid, delay, preroll, dur;
  char codec_b[12], lang_b[12], name_b[140];
  uint8_t priv[140], key[20];
  const char *codec, *lang, *name;
  int privlen, nenc, keylen;
};
static void common(Common& c, Track* t) {
  bool full;
  c.uid = val("uid", 1);
  t->set_uid(c.uid);
  c.addid = val("addid", 0); c.delay = val("delay", 0); c.preroll = val("preroll", 0); c.dur = val("dur", 0);
  if (c.addid) t->set_max_block_additional_id(c.addid);
  if (c.delay) t->set_codec_delay(c.delay);
  if (c.preroll) t->set_seek_pre_roll(c.preroll);
  if (c.dur) t->set_default_duration(c.dur);
  c.codec = text("codec", c.codec_b, 3);
  if (!c.codec || !c.codec[0]) { c.codec_b[0] = 'X'; c.codec_b[1] = 0; c.codec = c.codec_b; }
  t->set_codec_id(c.codec);
  c.lang = text("lang", c.lang_b, 3);
  if (c.lang) t->set_language(c.lang);
  c.name = text("name", c.name_b, 6);
  if (c.name) t->set_name(c.name);
  c.privlen = blob("priv", c.priv, 6);
  if (c.privlen) { CHECK(!t->SetCodecPrivate(c.priv, 0)); CHECK(t->SetCodecPrivate(c.priv, c.privlen)); }
  c.keylen = blob("key", c.key, 3);
  c.nenc = c.keylen ? 1 + (c.keylen == 2) : 0;
  for (int i = 0; i < c.nenc; i++) {
    CHECK(t->AddContentEncoding());
    ContentEncoding* e = t->GetContentEncodingByIndex(i);
    CHECK(e != nullptr);
    CHECK(e->SetEncryptionID(c.key, c.keylen - i));
  }
  CHECK(t->GetContentEncodingByIndex(c.nenc) == nullptr);
}
static void expect_common(Tree& t, int te, const Common& c, uint64_t number, uint64_t type) {
  t.u(te, 0xD7, number);
  t.u(te, 0x73C5, c.uid);
  t.u(te, 0x83, type);
  t.opt_u(te, 0x55EE, c.addid != 0, c.addid);
  t.opt_u(te, 0x56AA, c.delay != 0, c.delay);
  t.opt_u(te, 0x56BB, c.preroll != 0, c.preroll);
  t.opt_u(te, 0x23E383, c.dur != 0, c.dur);
  t.str(te, 0x86, c.codec);
  if (c.lang) t.str(te, 0x22B59C, c.lang);
  if (c.name) t.str(te, 0x536E, c.name);
  if (c.privlen) t.bytes(te, 0x63A2, c.priv, c.privlen);
  if (c.nenc) {
    int es = t.take(te, 0x6D80);
    for (int i = 0; i < c.nenc; i++) {
      int e = t.take(es, 0x6240);
      t.u(e, 0x5031, 0); t.u(e, 0x5032, 1); t.u(e, 0x5033, 1);
      int x = t.take(e, 0x5035);
      t.u(x, 0x47E1, 5);
      t.bytes(x, 0x47E2, c.key, c.keylen - i);
      int a = t.take(x, 0x47E7);
      t.u(a, 0x47E8, 1);
    }
  }
}
static void demux_common(const mkvparser::Track* t, const Common& c, uint64_t number, uint64_t type) {
  CHECKM(t != nullptr, "the demuxer lists the track");
  CHECK(t->GetNumber() == (long)number);
  CHECK(t->GetUid() == c.uid);
  CHECK(t->GetType() == (long)type);
  CHECK(t->GetCodecDelay() == c.delay);
  CHECK(t->GetSeekPreRoll() == c.preroll);
  CHECK(t->GetDefaultDuration() == c.dur);
  CHECK(strcmp(t->GetCodecId(), c.codec) == 0);
  if (c.lang) CHECK(strcmp(t->GetLanguage(), c.lang) == 0);
  if (c.name) CHECK(t->GetNameAsUTF8() && strcmp(t->GetNameAsUTF8(), c.name) == 0); else CHECK(!t->GetNameAsUTF8());
  size_t l = 0;
  const unsigned char* pr = t->GetCodecPrivate(l);
  CHECK(l == (size_t)c.privlen);
  for (size_t i = 0; i < l; i++) CHECK(pr[i] == c.priv[i]);
  CHECK(t->GetContentEncodingCount() == (unsigned long)c.nenc);
  for (int i = 0; i < c.nenc; i++) {
    const mkvparser::ContentEncoding* e = t->GetContentEncodingByIndex(i);
    CHECK(e && e->encoding_order() == 0 && e->encoding_scope() == 1 && e->encoding_type() == 1 && e->GetEncryptionCount() == 1 && e->GetCompressionCount() == 0);
    const mkvparser::ContentEncoding::ContentEncryption* x = e->GetEncryptionByIndex(0);
    CHECK(x->algo == 5 && x->aes_settings.cipher_mode == 1);
    CHECK(x->key_id_len == c.keylen - i);
    for (int j = 0; j < c.keylen - i; j++) CHECK(x->key_id[j] == c.key[j]);
  }
}
static MemWriter w;
static Tree tree;
static MemReader* rd;
static mkvparser::Segment* demux() {
  rd = new MemReader(w.buf, w.end);
  mkvparser::Segment* seg = nullptr;
  CHECK(mkvparser::Segment::CreateInstance(rd, 0, seg) == 0);
  if (!seg) symx_stop();
  long long st = seg->ParseHeaders();
  CHECKM(st == 0, "the demuxer accepts the track list");
  if (st || !seg->GetTracks()) symx_stop();
  return seg;
}
// what precedes the tracks so that the demuxer can read them; an empty cluster follows
static int64_t prologue() {
  static const uint8_t h[] = {0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0x15, 0x49, 0xA9, 0x66, 0x8F, 0x2A, 0xD7, 0xB1, 0x83, 0x0F, 0x42, 0x40, 0x4D, 0x80, 0x81, 'm', 0x57, 0x41, 0x81, 'w'};
  w.Write(h, sizeof h);
  return w.end;
}
static void epilogue() { static const uint8_t c[] = {0x1F, 0x43, 0xB6, 0x75, 0x83, 0xE7, 0x81, 0x00}; w.Write(c, sizeof c); }
static void choose(int fields) {
  freeField = (int)symx_pick("free", 0, fields - 1);
  others = (int)symx_pick("others", 0, 1);
  freeField2 = others ? -1 : (int)symx_pick("second", 0, fields) - 1;
}
#if KIND == 0  // video geometry
#define FIELDS 24
#elif KIND == 1  // audio
#define FIELDS 14
#elif KIND == 2  // colour
#define FIELDS 24
#elif KIND == 3  // projection
#define FIELDS 6
#endif
static Common c;
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  {
    unsigned seed = 1;
    Tracks tracks;
    int64_t start = prologue();
#if KIND == 1
    choose(FIELDS);
    AudioTrack* t = new AudioTrack(&seed);
    int number = (int)symx_pick("number", 1, 3) * 42;  // 42, 84, 126
    CHECK(tracks.AddTrack(t, number));
    t->set_type(Tracks::kAudio);
    common(c, t);
    bool full;
    uint64_t ch = val("channels", 1), bits = val("bits", 0);
    t->set_channels(ch);
    if (bits) t->set_bit_depth(bits);
    float rate = flt("rate", 8000.0f, 0.5f, 1e9f);
    t->set_sample_rate(rate);
    (void)full;
    CHECKM(nfield <= FIELDS, "harness fields");
    bool ok = tracks.Write(&w);
    CHECKM(ok, "a valid track is written");
    if (!ok) symx_stop();
    CHECKM(tracks.GetTrackByNumber(number) == t && tracks.TrackIsAudio(number) && !tracks.TrackIsVideo(number), "track lookup");
    tree.read(w.buf, start, w.end);
    int ts = tree.take(-1, 0x1654AE6B), te = tree.take(ts, 0xAE);
    expect_common(tree, te, c, number, 2);
    int a = tree.take(te, 0xE1);
    tree.f4(a, 0xB5, rate);
    tree.u(a, 0x9F, ch);
    tree.opt_u(a, 0x6264, bits != 0, bits);
    tree.empty();
    if (small_only) {
      epilogue();
      mkvparser::Segment* s = demux();
      const mkvparser::Track* d = s->GetTracks()->GetTrackByNumber(number);
      demux_common(d, c, number, 2);
      const mkvparser::AudioTrack* da = static_cast<const mkvparser::AudioTrack*>(d);
      CHECK(da->GetSamplingRate() == rate && da->GetChannels() == (long long)ch && da->GetBitDepth() == (long long)bits);
      delete s; delete rd;
      symx_reach("demuxed");
    }
#else
    choose(FIELDS);
    VideoTrack* t = new VideoTrack(&seed);
    CHECK(tracks.AddTrack(t, 1));
    t->set_type(Tracks::kVideo);
    Track* second = nullptr;
#if KIND == 0
    common(c, t);
    uint64_t pw = val("pw", 0), ph = val("ph", 0), dw = val("dw", 0), dh = val("dh", 0), cl = val("cl", 0), cr = val("cr", 0), ct = val("ct", 0), cb = val("cb", 0);
    uint64_t stereo = val_max("stereo", 0, 0, 14), alpha = val_max("alpha", 0, 0, 2);
    char cs_b[8];
    const char* cs = text("colourspace", cs_b, 3);
    if (cs) t->set_colour_space(cs);
    float fr = flt("framerate", 0.0f, 0.0f, 1e9f);
    uint64_t width = 640, height = 480;
    t->set_width(width); t->set_height(height);
    if (pw) t->set_pixel_width(pw);
    if (ph) t->set_pixel_height(ph);
    if (dw) t->set_display_width(dw);
    if (dh) t->set_display_height(dh);
    if (cl) t->set_crop_left(cl);
    if (cr) t->set_crop_right(cr);
    if (ct) t->set_crop_top(ct);
    if (cb) t->set_crop_bottom(cb);
    bool sok = t->SetStereoMode(stereo);
    CHECKM(sok == (stereo <= 3 || stereo == 11), "stereo modes of WebM only");
    if (!sok) stereo = 0;
    bool aok = t->SetAlphaMode(alpha);
    CHECKM(aok == (alpha < 2), "alpha modes");
    if (!aok) alpha = 0;
    t->set_frame_rate(fr);
#else
    c.uid = 7; t->set_uid(7);
    c.codec = "V_VP9"; t->set_codec_id("V_VP9");
    t->set_width(640); t->set_height(480);
    uint64_t pw = 640, ph = 480, dw = 0, dh = 0, cl = 0, cr = 0, ct = 0, cb = 0, stereo = 0, alpha = 0;
    const char* cs = nullptr;
    float fr = 0;
#endif
#if KIND == 2
    const uint64_t NO = Colour::kValueNotPresent;
    Colour col;
    uint64_t mc = val_max("mc", NO, 0, 10), bpc = val("bpc", NO, 0), csh = val("csh", NO, 0), csv = val("csv", NO, 0), cbh = val("cbh", NO, 0), cbv = val("cbv", NO, 0);
    uint64_t sih = val_max("sih", NO, 0, 2), siv = val_max("siv", NO, 0, 2), rg = val_max("rg", NO, 0, 3), tc = val_max("tc", NO, 1, 18), pr = val_max("pr", NO, 0, 22);
    uint64_t cll = val("cll", NO, 0), fall = val("fall", NO, 0);
    symx_assume(pr == NO || pr <= 10 || pr == 22);
    uint64_t* all_[] = {&bpc, &csh, &csv, &cbh, &cbv, &cll, &fall};
    for (uint64_t* x : all_) { symx_assume(*x != NO || true); }
    col.set_matrix_coefficients(mc); col.set_bits_per_channel(bpc); col.set_chroma_subsampling_horz(csh); col.set_chroma_subsampling_vert(csv);
    col.set_cb_subsampling_horz(cbh); col.set_cb_subsampling_vert(cbv); col.set_chroma_siting_horz(sih); col.set_chroma_siting_vert(siv);
    col.set_range(rg); col.set_transfer_characteristics(tc); col.set_primaries(pr); col.set_max_cll(cll); col.set_max_fall(fall);
    const float NF = MasteringMetadata::kValueNotPresent;
    float lmax = flt("lmax", NF, 0.25f, 9999.99f), lmin = flt("lmin", NF, 0.0f, 0.25f);
    float x[4], y[4];
    bool has[4];
    bool any = lmax != NF || lmin != NF;
    for (int i = 0; i < 4; i++) {
      bool f;
      has[i] = present(&f);
      any |= has[i];
      if (has[i]) { nfield--; x[i] = flt("x", 0.5f, 0.0f, 1.0f); nfield--; y[i] = flt("y", 0.5f, 0.0f, 1.0f); }
    }
    if (any) {
      PrimaryChromaticity p0(x[0], y[0]), p1(x[1], y[1]), p2(x[2], y[2]), p3(x[3], y[3]);
      MasteringMetadata mm;
      mm.set_luminance_max(lmax); mm.set_luminance_min(lmin);
      CHECK(mm.SetChromaticity(has[0] ? &p0 : nullptr, has[1] ? &p1 : nullptr, has[2] ? &p2 : nullptr, has[3] ? &p3 : nullptr));
      CHECK(col.SetMasteringMetadata(mm));
    }
    CHECK(t->SetColour(col));
#endif
#if KIND == 3
    Projection pj;
    uint64_t ptype = val_max("ptype", 0, 0, 3);
    pj.set_type((Projection::ProjectionType)ptype);
    float yaw = flt("yaw", 0.0f, -180.0f, 180.0f), pitch = flt("pitch", 0.0f, -90.0f, 90.0f), roll = flt("roll", 0.0f, -180.0f, 180.0f);
    pj.set_pose_yaw(yaw); pj.set_pose_pitch(pitch); pj.set_pose_roll(roll);
    uint8_t pp[140];
    int ppl = blob("pp", pp, 6);
    CHECK(!pj.SetProjectionPrivate(nullptr, 3) && !pj.SetProjectionPrivate(pp, 0));
    if (ppl) CHECK(pj.SetProjectionPrivate(pp, ppl));
    CHECK(t->SetProjection(pj));
#endif
    // a second track follows
    second = new AudioTrack(&seed);
    CHECK(tracks.AddTrack(second, 0));
    CHECKM(second->number() == 2, "lowest free number");
    second->set_type(2);
    second->set_codec_id("A_X");
    static_cast<AudioTrack*>(second)->set_sample_rate(1);
    CHECKM(nfield <= FIELDS, "harness fields");
    bool ok = tracks.Write(&w);
    CHECKM(ok, "a valid track is written");
    if (!ok) symx_stop();
    tree.read(w.buf, start, w.end);
    int ts = tree.take(-1, 0x1654AE6B), te = tree.take(ts, 0xAE);
    expect_common(tree, te, c, 1, 1);
    int v = tree.take(te, 0xE0);
    tree.u(v, 0xB0, pw ? pw : 640);
    tree.u(v, 0xBA, ph ? ph : 480);
    tree.opt_u(v, 0x54B0, dw != 0, dw); tree.opt_u(v, 0x54BA, dh != 0, dh);
    tree.opt_u(v, 0x54CC, cl != 0, cl); tree.opt_u(v, 0x54DD, cr != 0, cr); tree.opt_u(v, 0x54BB, ct != 0, ct); tree.opt_u(v, 0x54AA, cb != 0, cb);
    tree.opt_u(v, 0x53B8, stereo != 0, stereo); tree.opt_u(v, 0x53C0, alpha != 0, alpha);
    if (cs) tree.str(v, 0x2EB524, cs);
    if (fr > 0) tree.f4(v, 0x2383E3, fr);
#if KIND == 2
    int ck = tree.find(v, 0x55B0);
    bool anyc = any;
    struct { uint32_t id; uint64_t v; } ci[] = {{0x55B1, mc}, {0x55B2, bpc}, {0x55B3, csh}, {0x55B4, csv}, {0x55B5, cbh}, {0x55B6, cbv}, {0x55B7, sih}, {0x55B8, siv}, {0x55B9, rg}, {0x55BA, tc}, {0x55BB, pr}, {0x55BC, cll}, {0x55BD, fall}};
    for (auto& q : ci) anyc |= q.v != NO;
    CHECKM(anyc == (ck >= 0), "colour is stored when anything of it is set");
    if (ck >= 0) {
      tree.nd[ck].taken = true;
      for (auto& q : ci) tree.opt_u(ck, q.id, q.v != NO, q.v);
      if (any) {
        int m = tree.take(ck, 0x55D0);
        if (lmax != NF) tree.f4(m, 0x55D9, lmax);
        if (lmin != NF) tree.f4(m, 0x55DA, lmin);
        for (int i = 0; i < 4; i++) if (has[i]) { tree.f4(m, 0x55D1 + 2 * i, x[i]); tree.f4(m, 0x55D2 + 2 * i, y[i]); }
      }
      symx_reach("colour");
    }
#endif
#if KIND == 3
    int pk = tree.take(v, 0x7670);
    tree.u(pk, 0x7671, ptype);
    if (ppl) tree.bytes(pk, 0x7672, pp, ppl);
    tree.f4(pk, 0x7673, yaw); tree.f4(pk, 0x7674, pitch); tree.f4(pk, 0x7675, roll);
#endif
    int te2 = tree.take(ts, 0xAE);
    Common c2;
    memset(&c2, 0, sizeof c2);
    c2.uid = second->uid(); c2.codec = "A_X";
    expect_common(tree, te2, c2, 2, 2);
    int a = tree.take(te2, 0xE1);
    tree.f4(a, 0xB5, 1.0f); tree.u(a, 0x9F, 1);
    tree.empty();
    if (small_only) {
      epilogue();
      mkvparser::Segment* s = demux();
      CHECK(s->GetTracks()->GetTracksCount() == 2);
      const mkvparser::Track* d = s->GetTracks()->GetTrackByNumber(1);
      demux_common(d, c, 1, 1);
      const mkvparser::VideoTrack* dv = static_cast<const mkvparser::VideoTrack*>(d);
      CHECK(dv->GetWidth() == (long long)(pw ? pw : 640) && dv->GetHeight() == (long long)(ph ? ph : 480));
      CHECK(dv->GetDisplayWidth() == (long long)(dw ? dw : pw ? pw : 640) && dv->GetDisplayHeight() == (long long)(dh ? dh : ph ? ph : 480) && dv->GetStereoMode() == (long long)stereo);
      CHECK(dv->GetFrameRate() == fr);
#if KIND == 2
      const mkvparser::Colour* dc = dv->GetColour();
      CHECK((dc != nullptr) == anyc);
      if (dc) {
        const long long N_ = mkvparser::Colour::kValueNotPresent;
        long long got[] = {dc->matrix_coefficients, dc->bits_per_channel, dc->chroma_subsampling_horz, dc->chroma_subsampling_vert, dc->cb_subsampling_horz, dc->cb_subsampling_vert, dc->chroma_siting_horz, dc->chroma_siting_vert, dc->range, dc->transfer_characteristics, dc->primaries, dc->max_cll, dc->max_fall};
        for (int i = 0; i < 13; i++) CHECK(got[i] == (ci[i].v == NO ? N_ : (long long)ci[i].v));
        CHECK((dc->mastering_metadata != nullptr) == any);
        if (any) {
          const mkvparser::MasteringMetadata* m = dc->mastering_metadata;
          CHECK(m->luminance_max == (lmax == NF ? mkvparser::MasteringMetadata::kValueNotPresent : lmax));
          CHECK(m->luminance_min == (lmin == NF ? mkvparser::MasteringMetadata::kValueNotPresent : lmin));
          const mkvparser::PrimaryChromaticity* pc[] = {m->r, m->g, m->b, m->white_point};
          for (int i = 0; i < 4; i++) { CHECK((pc[i] != nullptr) == has[i]); if (pc[i]) CHECK(pc[i]->x == x[i] && pc[i]->y == y[i]); }
        }
      }
#endif
#if KIND == 3
      const mkvparser::Projection* dp = dv->GetProjection();
      CHECK(dp && (uint64_t)dp->type == ptype && dp->pose_yaw == yaw && dp->pose_pitch == pitch && dp->pose_roll == roll);
      CHECK(dp->private_data_length == (size_t)ppl);
      for (int i = 0; i < ppl; i++) CHECK(dp->private_data[i] == pp[i]);
#endif
      delete s; delete rd;
      symx_reach("demuxed");
    }
#endif
    symx_reach("written");
  }
  CHECKM(symx_live() == live0, "no leak");
}
