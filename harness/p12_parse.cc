// Arbitrary bytes at every place of the element tree: open, load and walk the file with the
// seeking demuxer; every getter is called.
#include <new>
#include "mem_reader.h"
using namespace mkvparser;
#ifndef PART
#define PART 0
#endif
#ifndef K
#define K 6
#endif
#ifndef STEP     // 0 Load, 1 ParseHeaders and ParseNext, 2 ParseHeaders and LoadCluster
#define STEP 0
#endif
static uint8_t f[700];
static int n;
static int stk[8], depth;
static void raw(const uint8_t* p, int len) { for (int i = 0; i < len; i++) f[n++] = p[i]; }
static void idb(uint32_t id) { for (int i = id >> 24 ? 3 : id >> 16 ? 2 : id >> 8 ? 1 : 0; i >= 0; i--) f[n++] = (uint8_t)(id >> (8 * i)); }
static void open(uint32_t id) { idb(id); stk[depth++] = n++; }
static void close() {
  int s = stk[--depth], l = n - s - 1;
  if (l > 126) { for (int i = n++; i > s + 1; i--) f[i] = f[i - 1]; f[s] = 0x40 | (l >> 8); f[s + 1] = (uint8_t)l; }
  else f[s] = 0x80 | l;
}
static void num(uint32_t id, uint8_t v) { idb(id); f[n++] = 0x81; f[n++] = v; }
static void str(uint32_t id, const char* s) { idb(id); int l = 0; while (s[l]) l++; f[n++] = 0x80 | l; raw((const uint8_t*)s, l); }
static void freebytes(int k = K) { symx_bytes(f + n, k, "x"); n += k; }
static void info() { open(0x1549A966); if (PART == 3) { freebytes(); } else { open(0x2AD7B1); f[n++] = 0x0F; f[n++] = 0x42; f[n++] = 0x40; close(); str(0x4D80, "m"); str(0x5741, "w"); } close(); }
static void track(int no, int type) {
  open(0xAE);
  num(0xD7, no); num(0x73C5, no); num(0x83, type); str(0x86, "S");
  if (type == 1) {
    open(0xE0); num(0xB0, 4); num(0xBA, 4);
    if (PART == 6) freebytes();
    if (PART == 35) {
      open(0x55B0); num(0x55B1, 1); open(0x55D0); open(0x55D1); f[n++] = 0x3F; f[n++] = 0; f[n++] = 0; f[n++] = 0; close(); open(0x55D2); f[n++] = 0x3F; f[n++] = 0; f[n++] = 0; f[n++] = 0; close(); close(); close();
      open(0x7670); num(0x7671, 1); str(0x7672, "pr"); close();
    }
    if (PART == 7 || PART == 8) { open(0x55B0); if (PART == 8) { open(0x55D0); freebytes(); close(); } else freebytes(); close(); }
    if (PART == 9) { open(0x7670); freebytes(); close(); }
    close();
    if (PART == 5) freebytes();
    if (PART == 35) {
      str(0x63A2, "cp"); str(0x536E, "nm");
      open(0x6D80); open(0x6240); num(0x5033, 0); open(0x5034); str(0x4255, "st"); close(); close(); close();
    }
    if (PART >= 11 && PART <= 14) {
      open(0x6D80); open(0x6240);
      num(0x5033, PART >= 13);
      if (PART == 11) freebytes();
      if (PART == 12) { open(0x5034); freebytes(); close(); }
      if (PART >= 13) { open(0x5035); num(0x47E1, 5); if (PART == 14) { open(0x47E7); freebytes(); close(); } else freebytes(); close(); }
      close(); close();
    }
  } else {
    open(0xE1); if (PART == 10) freebytes(); if (PART == 35) num(0x9F, 2); close();
    if (PART == 35) { open(0x6D80); open(0x6240); num(0x5033, 1); open(0x5035); num(0x47E1, 5); str(0x47E2, "ke"); open(0x47E7); num(0x47E8, 1); close(); close(); close(); close(); }
  }
  close();
}
static void cluster(uint8_t tc, bool block = true) {
  open(0x1F43B675); num(0xE7, tc);
  if (block) { idb(0xA3); f[n++] = 0x85; f[n++] = 0x81; f[n++] = 0; f[n++] = 1; f[n++] = 0x80; f[n++] = 7; }
  if (PART == 27) freebytes();
  if (PART == 28) { open(0xA0); idb(0xA1); f[n++] = 0x85; f[n++] = 0x81; f[n++] = 0; f[n++] = 1; f[n++] = 0; f[n++] = 7; freebytes(); close(); }
  if (PART == 29) { open(0xA0); freebytes(); close(); }
  close();
}
static unsigned sum;
static void seen(const char* s) { if (s) while (*s) sum += (uint8_t)*s++; }
static void entry(MemReader* rd, const BlockEntry* e) {
  const Block* b = e->GetBlock();
  if (!b) return;
  sum += (unsigned)(b->GetTrackNumber() + b->GetTime(e->GetCluster()) + b->GetDiscardPadding() + b->IsKey() + b->IsInvisible() + b->GetLacing());
  for (int i = 0; i < b->GetFrameCount(); i++) {
    const Block::Frame& fr = b->GetFrame(i);
    CHECKM(fr.pos >= 0 && fr.len > 0 && fr.pos + fr.len <= n, "frames lie in the file");
    unsigned char buf[sizeof f];
    CHECKM(fr.Read(rd, buf) == 0 || PART >= 34, "frames can be read");
  }
  if (e->GetKind() == BlockEntry::kBlockGroup) {
    const BlockGroup* g = static_cast<const BlockGroup*>(e);
    sum += (unsigned)(g->GetPrevTimeCode() + g->GetNextTimeCode() + g->GetDurationTimeCode());
  }
}
static void meta(Segment* s) {
  if (const SegmentInfo* i = s->GetInfo()) { sum += (unsigned)(i->GetTimeCodeScale() + i->GetDuration()); seen(i->GetMuxingAppAsUTF8()); seen(i->GetWritingAppAsUTF8()); seen(i->GetTitleAsUTF8()); }
  if (const Tracks* t = s->GetTracks()) for (unsigned long i = 0; i < t->GetTracksCount(); i++) {
    const Track* k = t->GetTrackByIndex(i);
    if (!k) continue;
    sum += (unsigned)(k->GetType() + k->GetNumber() + k->GetUid() + k->GetLacing() + k->GetDefaultDuration() + k->GetCodecDelay() + k->GetSeekPreRoll());
    CHECKM(t->GetTrackByNumber(k->GetNumber()) != nullptr, "a track is found by its number");
    seen(k->GetNameAsUTF8()); seen(k->GetLanguage()); seen(k->GetCodecNameAsUTF8()); seen(k->GetCodecId());
    size_t l = 0;
    if (const unsigned char* p = k->GetCodecPrivate(l)) for (size_t j = 0; j < l; j++) sum += p[j];
    for (unsigned long j = 0; j < k->GetContentEncodingCount(); j++) {
      const ContentEncoding* e = k->GetContentEncodingByIndex(j);
      sum += (unsigned)(e->encoding_order() + e->encoding_scope() + e->encoding_type());
      for (unsigned long q = 0; q < e->GetCompressionCount(); q++) { auto c = e->GetCompressionByIndex(q); sum += (unsigned)c->algo; for (long long z = 0; c->settings && z < c->settings_len; z++) sum += c->settings[z]; }
      for (unsigned long q = 0; q < e->GetEncryptionCount(); q++) {
        auto c = e->GetEncryptionByIndex(q);
        sum += (unsigned)(c->algo + c->sig_algo + c->sig_hash_algo + c->aes_settings.cipher_mode);
        for (long long z = 0; c->key_id && z < c->key_id_len; z++) sum += c->key_id[z];
        for (long long z = 0; c->signature && z < c->signature_len; z++) sum += c->signature[z];
        for (long long z = 0; c->sig_key_id && z < c->sig_key_id_len; z++) sum += c->sig_key_id[z];
      }
    }
    if (k->GetType() == Track::kVideo) {
      const VideoTrack* v = static_cast<const VideoTrack*>(k);
      sum += (unsigned)(v->GetWidth() + v->GetHeight() + v->GetDisplayWidth() + v->GetDisplayHeight() + v->GetDisplayUnit() + v->GetStereoMode());
      seen(v->GetColourSpace());
      if (const Colour* c = v->GetColour()) { sum += (unsigned)c->matrix_coefficients; if (auto m = c->mastering_metadata) { if (m->r) sum += m->r->x > 1; if (m->white_point) sum += m->white_point->y > 1; } }
      if (const Projection* p = v->GetProjection()) for (size_t j = 0; j < p->private_data_length; j++) sum += p->private_data[j];
    } else if (k->GetType() == Track::kAudio) {
      const AudioTrack* a = static_cast<const AudioTrack*>(k);
      sum += (unsigned)(a->GetChannels() + a->GetBitDepth()) + (a->GetSamplingRate() > 1);
    }
  }
  if (const SeekHead* h = s->GetSeekHead()) {
    for (int i = 0; i < h->GetCount(); i++) sum += (unsigned)(h->GetEntry(i)->id + h->GetEntry(i)->pos);
    for (int i = 0; i < h->GetVoidElementCount(); i++) sum += (unsigned)h->GetVoidElement(i)->element_size;
  }
  if (const Chapters* c = s->GetChapters()) for (int i = 0; i < c->GetEditionCount(); i++) {
    const Chapters::Edition* e = c->GetEdition(i);
    for (int j = 0; j < e->GetAtomCount(); j++) {
      const Chapters::Atom* a = e->GetAtom(j);
      seen(a->GetStringUID());
      sum += (unsigned)(a->GetUID() + a->GetStartTimecode() + a->GetStopTimecode());
      if (s->GetInfo()) sum += (unsigned)(a->GetStartTime(c) + a->GetStopTime(c));
      for (int q = 0; q < a->GetDisplayCount(); q++) { seen(a->GetDisplay(q)->GetString()); seen(a->GetDisplay(q)->GetLanguage()); seen(a->GetDisplay(q)->GetCountry()); }
    }
  }
  if (const Tags* t = s->GetTags()) for (int i = 0; i < t->GetTagCount(); i++) for (int j = 0; j < t->GetTag(i)->GetSimpleTagCount(); j++) { seen(t->GetTag(i)->GetSimpleTag(j)->GetTagName()); seen(t->GetTag(i)->GetSimpleTag(j)->GetTagString()); }
}
static void blocks(MemReader* rd, Segment* s) {
  int guard = 0;
  for (const Cluster* c = s->GetFirst(); c && !c->EOS(); c = s->GetNext(c)) {
    CHECKM(++guard < 40, "the walk over the clusters ends");
    sum += (unsigned)(c->GetPosition() + c->GetIndex() + c->GetElementSize() + c->GetTimeCode() + c->GetTime() + c->GetFirstTime() + c->GetLastTime());
    const BlockEntry* e = nullptr;
    long st = c->GetFirst(e);
    int g2 = 0;
    while (st >= 0 && e && !e->EOS()) {
      CHECKM(++g2 < 40, "the walk over the blocks ends");
      entry(rd, e);
      const BlockEntry* nx = nullptr;
      st = c->GetNext(e, nx);
      e = nx;
    }
    if (st >= 0) { sum += (unsigned)(c->GetTimeCode() + c->GetTime() + c->GetFirstTime() + c->GetLastTime() + c->GetEntryCount()); symx_reach("cluster walked"); }
  }
  const Tracks* ts = s->GetTracks();
  if (ts) for (unsigned long i = 0; i < ts->GetTracksCount(); i++) if (const Track* t = ts->GetTrackByIndex(i)) {
    const BlockEntry* e = nullptr;
    int g = 0;
    for (long st = t->GetFirst(e); st >= 0 && e && !e->EOS();) {
      CHECKM(++g < 40, "the walk over a track ends");
      const BlockEntry* nx = nullptr;
      st = t->GetNext(e, nx);
      e = nx;
    }
    if (PART >= 27) t->Seek((int16_t)symx_u16("seek") * 1000000ll, e);
    else { t->Seek(1000000, e); t->Seek(-1, e); }
  }
  if (const Cues* c = s->GetCues()) {
    int g = 0;
    while (!c->DoneParsing()) { CHECKM(++g < 40, "the index ends"); c->LoadCuePoint(); }
    g = 0;
    if (c->GetCount() > 0) for (const CuePoint* p = c->GetFirst(); p; p = c->GetNext(p)) {
      CHECKM(++g < 40, "the walk over the index ends");
      sum += (unsigned)(p->GetTimeCode() + (s->GetInfo() ? p->GetTime(s) : 0));
      if (ts) for (unsigned long i = 0; i < ts->GetTracksCount(); i++) if (const Track* t = ts->GetTrackByIndex(i)) {
        const CuePoint::TrackPosition* tp = p->Find(t);
        if (tp) { symx_reach("position"); if (const BlockEntry* e = c->GetBlock(p, tp)) entry(rd, e); }
        const CuePoint* fp; const CuePoint::TrackPosition* ft;
        if (s->GetInfo() && c->Find(1000000, t, fp, ft)) c->GetBlock(fp, ft);
      }
    }
  }
  if (s->GetInfo()) s->FindCluster(1000000);
}
extern "C" void symx_main() {
  int64_t live0 = symx_live();
  if (PART == 0) freebytes(symx_pick("length", 0, K));
  else {
    static const uint8_t h[] = {0x1A, 0x45, 0xDF, 0xA3, 0x88, 0x42, 0x82, 0x85, 'w', 'e', 'b', 'm', 0};
    raw(h, sizeof h);
  }
  if (PART == 31) { f[4] = 0x80 | (8 + K); int e = n; freebytes(); (void)e; }
  if (PART == 1) freebytes();
  if (PART >= 2) {
    static const uint8_t sg[] = {0x18, 0x53, 0x80, 0x67, 0x01, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF, 0xFF};
    if (PART == 2 || PART == 30 || PART == 32) raw(sg, sizeof sg);
    else { raw(sg, 4); f[n++] = 0x40; f[n++] = 0; }
    int sat = n;
    if (PART == 18 || PART == 19) { open(0x114D9B74); if (PART == 19) { open(0x4DBB); freebytes(); close(); } else freebytes(); close(); }
    if (PART == 2) freebytes();
    if (PART != 2) {
      info();
      open(0x1654AE6B);
      if (PART == 4) freebytes();
      else { track(1, PART == 10 ? 2 : 1); if (PART == 35) track(2, 2); }
      close();
    }
    if (PART >= 15 && PART <= 17) { open(0x1C53BB6B); if (PART == 15) freebytes(); else { open(0xBB); if (PART == 17) { num(0xB3, 1); open(0xB7); num(0xF7, 1); freebytes(); close(); } else freebytes(); close(); } close(); }
    if (PART == 35) {
      open(0x114D9B74); open(0x4DBB); str(0x53AB, "\x1C\x53\xBB\x6B"); num(0x53AC, 1); close(); num(0xEC, 0); close();
      open(0x1043A770); open(0x45B9); open(0xB6); num(0x73C4, 1); num(0x91, 1); num(0x92, 2); str(0x5654, "u"); open(0x80); str(0x85, "s"); str(0x437C, "l"); str(0x437E, "c"); close(); close(); close(); close();
      open(0x1254C367); open(0x7373); open(0x67C8); str(0x45A3, "t"); str(0x4487, "v"); close(); close(); close();
    }
    if (PART >= 20 && PART <= 23) {
      open(0x1043A770);
      if (PART == 20) freebytes();
      else { open(0x45B9); if (PART == 21) freebytes(); else { open(0xB6); if (PART == 22) freebytes(); else { open(0x80); freebytes(); close(); } close(); } close(); }
      close();
    }
    if (PART >= 24 && PART <= 26) {
      open(0x1254C367);
      if (PART == 24) freebytes();
      else { open(0x7373); if (PART == 25) freebytes(); else { open(0x67C8); freebytes(); close(); } close(); }
      close();
    }
    if (PART != 2) {
      if (PART == 30) {  // a cluster of unknown size
        static const uint8_t c[] = {0x1F, 0x43, 0xB6, 0x75, 0xFF, 0xE7, 0x81, 0};
        raw(c, sizeof c);
        freebytes();
      } else {
        cluster(0, PART != 27);
        if (PART == 32) freebytes();
        if (PART == 33) { open(0x1C53BB6B); open(0xBB); num(0xB3, 1); open(0xB7); num(0xF7, 1); freebytes(); close(); close(); close(); }
        if (PART != 27 && PART != 28 && PART != 29) cluster(9);
        if (PART >= 34) { open(0x1C53BB6B); open(0xBB); num(0xB3, 9); open(0xB7); num(0xF7, 1); num(0xF1, 1); close(); close(); close(); }
      }
    }
    if (!(PART == 2 || PART == 30 || PART == 32)) { f[sat - 2] |= (n - sat) >> 8; f[sat - 1] = (uint8_t)(n - sat); }
  }
  {
    MemReader rd(f, n);
    if (PART >= 34) {  // the reader fails once, or refuses everything from somewhere on
      rd.fail_at = symx_u16("fail_at") % 4096;
      rd.fail_code = symx_pick("code", 0, 1) ? -1 : 1;
      rd.fail_on = symx_pick("for_good", 0, 1);
    }
    long long pos = 0;
    EBMLHeader eh;
    long long st = eh.Parse(&rd, pos);
    if (st == 0 && eh.m_docType) seen(eh.m_docType);
    if (PART == 0) pos = symx_u8("pos") % (n + 1);
    Segment* s = nullptr;
    st = Segment::CreateInstance(&rd, pos, s);
    if (s) {
      symx_reach("segment");
      if (STEP == 0) st = s->Load();
      else {
        st = s->ParseHeaders();
        meta(s);
        if (st == 0 && s->GetInfo() && s->GetTracks()) {
          symx_reach("headers");
          int g = 0;
          if (STEP == 2) {
            long l = 0;
            do { CHECKM(++g < 40, "loading ends"); long long p; long sz; l = s->LoadCluster(p, sz); } while (l == 0);
          } else {
            long l = s->LoadCluster();
            const Cluster* c = s->GetFirst();
            while (l >= 0 && c && !c->EOS()) {
              CHECKM(++g < 40, "parsing ends");
              const Cluster* nx = nullptr;
              long long p; long sz;
              l = s->ParseNext(c, nx, p, sz);
              if (l != 0) break;
              c = nx;
            }
          }
        } else st = -1;
      }
      if (st >= 0) symx_reach("loaded");
      meta(s);
      if (s->GetInfo() && s->GetTracks()) blocks(&rd, s);
    }
    delete s;
  }
  CHECKM(symx_live() == live0, "no leak");
}
