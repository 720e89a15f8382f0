// In-memory IMkvWriter with an optional failure schedule.
#ifndef MEM_WRITER_H_
#define MEM_WRITER_H_
#include <string.h>
#include "mkvmuxer/mkvmuxer.h"
#include "symx.h"
#ifndef WCAP
#define WCAP 4096
#endif
class MemWriter : public mkvmuxer::IMkvWriter {
 public:
  MemWriter() : pos(0), end(0), seekable(true), ops(0), fail_at(-1), fail_code(-1), failed(false), notes(0), sticky(false) {}
  virtual ~MemWriter() {}
  bool Fails() {
    if (sticky && failed) return true;
    if (fail_at >= 0 && ops++ == fail_at) { failed = true; return true; }
    return false;
  }
  mkvmuxer::int32 Write(const void* b, mkvmuxer::uint32 n) {
    if (Fails()) return fail_code;
    CHECKM(pos + (int64_t)n <= WCAP, "harness: writer capacity");
    memcpy(buf + pos, b, n);
    pos += n;
    if (pos > end) end = pos;
    return 0;
  }
  mkvmuxer::int64 Position() const { return pos; }
  mkvmuxer::int32 Position(mkvmuxer::int64 p) {
    if (!seekable) return -1;
    if (Fails()) return fail_code;
    CHECKM(p >= 0 && p <= end, "writer asked to seek outside the written data");
    pos = p;
    return 0;
  }
  bool Seekable() const { return seekable; }
  void ElementStartNotify(mkvmuxer::uint64 id, mkvmuxer::int64 p) {
    CHECKM(p == pos, "element start notification carries the current position");
    notes++;
    last_id = id;
  }
  uint8_t buf[WCAP];
  int64_t pos, end;
  bool seekable;
  int64_t ops, fail_at;
  int32_t fail_code;
  bool failed;
  int notes;
  uint64_t last_id;
  bool sticky;
};
#endif
