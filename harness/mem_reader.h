// In-memory IMkvReader: `total` bytes exist, `avail` are available now.
#ifndef MEM_READER_H_
#define MEM_READER_H_
#include <string.h>
#include "mkvparser/mkvparser.h"
#include "symx.h"
class MemReader : public mkvparser::IMkvReader {
 public:
  MemReader(const uint8_t* d, long long n) : data(d), size(n), total(n), avail(n), ops(0), fail_at(-1), fail_code(-1), refuse(-1), fail_on(false), failed(false), refused(0) {}
  virtual ~MemReader() {}
  int Read(long long pos, long len, unsigned char* buf) {
    if (fail_at >= 0 && (fail_on ? ops++ >= fail_at : ops++ == fail_at)) { failed = true; return fail_code; }
    CHECKM(pos >= 0, "reader asked for a negative position");
    CHECKM(len >= 0, "reader asked for a negative length");
    if (pos > avail || len > avail - pos) { refused++; return refuse; }
    if (len == 0) return 0;
    pos = (long long)symx_concretize((uint64_t)pos);
    memcpy(buf, data + pos, len);
    return 0;
  }
  int Length(long long* t, long long* a) {
    if (t) *t = total;
    if (a) *a = avail;
    return 0;
  }
  const uint8_t* data;
  long long size, total, avail;
  long long ops, fail_at;
  int fail_code, refuse;
  bool fail_on, failed;
  int refused;
};
#endif
