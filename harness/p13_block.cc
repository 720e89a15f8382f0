#include "lace_ref.h"
#include "mem_reader.h"
using namespace mkvparser;
#ifndef BIG
#define BIG 0
#endif
#ifndef MAXN
#define MAXN 3
#endif
static uint8_t f[1000];
// sizes larger than the data that is looked at: the rest reads as zero
struct ZeroReader : MemReader {
  ZeroReader(const uint8_t* d, long long n) : MemReader(d, n) {}
  int Read(long long pos, long len, unsigned char* buf) {
    CHECKM(pos >= 0 && len >= 0 && len <= 16, "small reads only");
    if (pos > total || len > total - pos) return -1;
    if (pos >= 900) { memset(buf, 0, len); return 0; }
    memcpy(buf, data + pos, len);
    return 0;
  }
};
extern "C" void symx_main() {
  static const uint8_t head[] = {0x18, 0x53, 0x80, 0x67, 0xFF, 0x1F, 0x43, 0xB6, 0x75, 0xFF, 0xE7, 0x81, 0x05, 0xA3, 0x80};
  const int B = sizeof(head);
  memcpy(f, head, B);
#if BIG
  static const int64_t sizes[] = {260, 261, 519, 65536 + 6, 2147483648ll + 6, (1ll << 56) - 20, 1ll << 40, 4294967296ll + 7, 16777216 + 9, 2147483647, 65535 + 6, 259, 262, 263, 264, 300, 500, 515, 516, 517, 518, 520, 521, 770};
  int64_t size = sizes[symx_pick("size", 0, NSIZES - 1)];
  symx_bytes(f + B, 4 + 1 + BIG, "block");
  symx_assume((f[B] & 0x80) != 0 && f[B + 4] <= MAXN);
#else
  int size = (int)symx_pick("size", SZMIN, SZMAX);
  symx_bytes(f + B, size, "block");
#endif
#ifdef LACING
  symx_assume((f[B] & 0x80) != 0);
  if (size > 3) symx_assume(((f[B + 3] >> 1) & 3) == LACING);
#endif
  f[B - 1] = BIG ? 0xBF : 0x80 | size;
  // decide the frame count early (keeps divisions concrete)
  if (size > 4 && (f[B] & 0x80) && f[B + 4] < 64) symx_concretize(f[B + 4]);
#if BIG
  ZeroReader r(f, B + size + 10);
#else
  for (int i = 0; i < 10; i++) f[B + size + i] = 0x81;  // following data
  MemReader r(f, B + size + 10);
#endif
  Segment* seg = nullptr;
  long long st = Segment::CreateInstance(&r, 0, seg);
  CHECK(st == 0 && seg);
  if (!seg) return;
  Cluster* cl = Cluster::Create(seg, 0, 0);
  int64_t live0 = symx_live();
  {
    Block b(B, size, 7);
    long s = b.Parse(cl);
    ref::Lace l;
    ref::lace(f + B, size, &l);
    if (s == 0) {
      CHECK((uint64_t)b.GetTrackNumber() == l.track);
      CHECKM(l.ok || l.single, "an accepted block is well formed");
      CHECK(b.GetDiscardPadding() == 7);
      CHECK(b.IsKey() == ((l.flags & 0x80) != 0));
      CHECK(b.IsInvisible() == ((l.flags & 0x08) != 0));
      CHECK((int)b.GetLacing() == l.lacing);
      int n = b.GetFrameCount();
      CHECK(n >= 1);
      int64_t at = -1;
      for (int i = 0; i < n; i++) {
        const Block::Frame& fr = b.GetFrame(i);
        CHECK(fr.len > 0);
        CHECK(at < 0 || fr.pos == at);
        CHECK(fr.pos >= B && fr.pos + fr.len <= B + size);
        at = fr.pos + fr.len;
      }
      CHECK(at == B + size);
      if (l.ok && !l.single) {
        CHECK(n == l.n);
        for (int i = 0; i < n && i < l.n; i++) {
          const Block::Frame& fr = b.GetFrame(i);
          CHECK(fr.len == l.len[i] && fr.pos == B + l.pos[i]);
        }
        // frame data is what the block holds
        const Block::Frame& fr = b.GetFrame(n - 1);
#if !BIG
        uint8_t out[64];
        int at = (int)symx_concretize(fr.pos), len = B + size - at;
        CHECK(fr.Read(&r, out) == 0);
        CHECK(out[0] == f[at] && out[len - 1] == f[at + len - 1]);
#endif
        (void)fr;
        if (l.lacing == 0) symx_reach("unlaced");
        if (l.lacing == 1 && n > 1) symx_reach("xiph");
        if (l.lacing == 2 && n > 1) symx_reach("fixed");
        if (l.lacing == 3 && n > 1) symx_reach("ebml");
      }
    } else {
      CHECK(s < 0);
      CHECKM(!l.ok || l.single || l.track == 0, "a well-formed block is accepted");
      symx_reach("rejected");
    }
    // relative time: cluster time is 5, scale default
    if (s == 0 && size > 0) {
      long long tc = b.GetTimeCode(cl);
      CHECK(tc == 5 + (long long)l.time);
    }
  }
  CHECK(symx_live() == live0);
  delete cl;
  delete seg;
}
