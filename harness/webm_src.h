// webm::Reader over a byte array with a solver-chosen delivery schedule: up to NCUT cut
// positions; at each cut a read is shortened, and (if blk) the next request would block once.
#pragma once
#include <string.h>
#include "symx.h"
#include "webm/reader.h"
#include "webm/status.h"
#ifndef NCUT
#define NCUT 0
#endif
struct SrcReader : webm::Reader {
  const uint8_t* d;
  uint64_t len, pos = 0;
  uint64_t calls = 0;
  uint64_t base = 0;        // value of Position() at the first byte
  int end_code = webm::Status::kEndOfFile;
  uint16_t cut[NCUT + 1];
  bool blk[NCUT + 1], fired[NCUT + 1];
  int ncut = 0;
  uint64_t blocked = 0;
  bool each = false, each_fired = false;  // one byte per request, blocking once before each
  bool lazy = false;        // keep skipped lengths symbolic
  SrcReader(const uint8_t* data, uint64_t n) : d(data), len(n) {}
  void schedule() {
    ncut = NCUT;
    for (int i = 0; i < NCUT; i++) {
      cut[i] = symx_u16("cut");
      symx_assume(cut[i] <= len);
      if (i) symx_assume(cut[i] > cut[i - 1]);
      blk[i] = symx_bool("blk");
      fired[i] = false;
    }
  }
  webm::Status take(uint64_t n, uint8_t* out, uint64_t* got) {
    *got = 0;
    calls++;
    CHECKM(n != 0, "a reader is never asked for zero bytes");
    if (n == 0) return webm::Status(webm::Status::kOkCompleted);
    uint64_t left = len - pos, t = n < left ? n : left;
    if (each) {
      each_fired = !each_fired;
      if (each_fired) { blocked++; return webm::Status(webm::Status::kWouldBlock); }
      if (t > 1) t = 1;
    }
    for (int i = 0; i < ncut; i++) {
      if (fired[i]) continue;
      if (cut[i] == pos) {
        fired[i] = true;
        if (blk[i]) { blocked++; return webm::Status(webm::Status::kWouldBlock); }
      } else if (cut[i] > pos && cut[i] < pos + t) {
        t = symx_concretize(cut[i] - pos);
        break;
      }
    }
    if (left == 0) return webm::Status(end_code);
    if (out || !lazy) t = symx_concretize(t);
    if (out) memcpy(out, d + pos, t);
    pos += t;
    *got = t;
    return webm::Status(t == n ? webm::Status::kOkCompleted : webm::Status::kOkPartial);
  }
  webm::Status Read(size_t n, uint8_t* out, uint64_t* got) override { return take(n, out, got); }
  webm::Status Skip(uint64_t n, uint64_t* got) override { return take(n, nullptr, got); }
  uint64_t Position() const override { return base + pos; }
};
