#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
#include "m2ts/vpxpes2ts.h"
#include "symx.h"
using namespace libwebm;
// The WebM-to-PES stage is replaced by a source of arbitrary packets (it is P28's subject).
static VpxPes2Ts* ts;
static PacketDataBuffer pk[3];
static int npk;
static bool all_ok;
bool libwebm::Webm2Pes::ConvertToPacketReceiver() {
  PacketReceiverInterface* sink = ts;
  all_ok = true;
  for (int i = 0; i < npk; i++) if (!sink->ReceivePacket(pk[i])) { all_ok = false; return false; }
  return true;
}
extern "C" void symx_main() {
  SymFile* s = symfs_make('a', 16384);
  static const int L[] = {1, 2, 181, 182, 183, 184, 185, 366, 367, 368, 369, 3128};
  npk = (int)symx_pick("packets", 1, NPK);
  int total = 0;
  for (int i = 0; i < npk; i++) {
    int n = L[symx_pick("len", 0, LN)];
    pk[i].resize(n);
    if (n <= FREE) symx_bytes(pk[i].data(), n, "data");
    else {  // free bytes at both ends and around the packet borders, distinct elsewhere
      for (int k = 0; k < n; k++) pk[i][k] = (uint8_t)(k * 7 + i);
      symx_bytes(&pk[i][0], 4, "head");
      symx_bytes(&pk[i][n - 4], 4, "tail");
      for (int k = 180; k + 8 <= n && k < 600; k += 182) symx_bytes(&pk[i][k], 6, "mid");
    }
    total += n;
  }
  bool ok;
  bool fail = symx_pick("fail", 0, 1);
  if (fail) s->fail_write = (long)symx_pick("failat", 0, 2);
  {
    VpxPes2Ts t("c", "a");
    ts = &t;
    ok = t.ConvertToFile();
  }
  if (fail) {
    CHECKM(ok == !s->err, "a failed write is reported");
    if (s->err) { symx_reach("write-failed"); return; }
  }
  CHECKM(ok, "every packet is converted");
  CHECKM(s->len % 188 == 0, "the output is a whole number of 188-byte packets");
  size_t at = 0;
  int cc = -1;
  for (int i = 0; i < npk; i++) {
    size_t got = 0;
    bool first = true;
    while (got < pk[i].size()) {
      CHECKM(at + 188 <= s->len, "the output holds all payload bytes");
      if (at + 188 > s->len) return;
      const uint8_t* p = s->data + at;
      CHECKM(p[0] == 0x47, "sync byte");
      CHECKM(p[1] == (first ? 0x40 : 0) && p[2] == 0x20, "unit start flag and stream id");
      CHECKM((p[3] & 0xD0) == 0x10, "unscrambled, payload present");
      int c = p[3] & 15;
      CHECKM(cc < 0 || c == ((cc + 1) & 15), "the continuity counter is cyclic");
      cc = c;
      int head = 4;
      if (p[3] & 0x20) {
        int al = p[4];
        CHECKM(al >= 0 && al <= 183, "the adaptation field fits the packet");
        head = 5 + al;
        if (al > 0) CHECKM(p[5] == 0, "no adaptation flags");
        for (int k = 6; k < head && k < 188; k++) CHECKM(p[k] == 0xFF, "stuffing bytes");
        symx_reach("stuffed");
      }
      for (int k = head; k < 188; k++) {
        CHECKM(got < pk[i].size(), "no payload beyond the packet");
        if (got < pk[i].size()) { CHECKM(p[k] == pk[i][got], "payload bytes are intact"); got++; }
      }
      at += 188;
      first = false;
    }
  }
  CHECKM(at == s->len, "nothing follows the last packet");
  symx_reach("ok");
}
