#define SYMFS_IMPL
#include "symfs.h"
#include <stdlib.h>
#include <string.h>
#include "symx.h"
SymFile symfs_files[4];
static SymFile* S(FILE* f) {
  for (int i = 0; i < 4; i++) if (f == (FILE*)&symfs_files[i]) { CHECKM(symfs_files[i].open, "use of a closed file"); return &symfs_files[i]; }
  return nullptr;  // stdout, stderr
}
SymFile* symfs_get(char name) { return &symfs_files[name - 'a']; }
SymFile* symfs_make(char name, size_t cap) {
  SymFile* s = symfs_get(name);
  memset(s, 0, sizeof *s);
  s->data = (uint8_t*)malloc(cap ? cap : 1);
  s->cap = cap;
  s->exists = true;
  s->fail_write = -1;
  return s;
}
extern "C" {
FILE* symfs_fopen(const char* name, const char* mode) {
  if (!name || name[0] < 'a' || name[0] > 'd') return nullptr;
  SymFile* s = symfs_get(name[0]);
  if (!s->data || (mode[0] == 'r' && !s->exists)) return nullptr;
  CHECKM(!s->open, "file opened twice");
  if (mode[0] == 'w') s->len = 0;
  s->exists = s->open = true;
  s->pos = 0;
  s->eof = s->err = false;
  return (FILE*)s;
}
int symfs_fclose(FILE* f) { SymFile* s = S(f); if (s) { s->open = false; s->closes++; } return 0; }
size_t symfs_fread(void* p, size_t sz, size_t n, FILE* f) {
  SymFile* s = S(f);
  size_t want = sz * n, left = s->pos < s->len ? s->len - s->pos : 0;
  size_t t = want < left ? want : left;
  if (s->cut && s->pos < s->cut && s->pos + t > s->cut) t = s->cut - s->pos;
  if (want > left) s->eof = true;
  t = symx_concretize(t);
  if (t) memcpy(p, s->data + s->pos, t);
  s->pos += t;
  return sz ? t / sz : 0;
}
size_t symfs_fwrite(const void* p, size_t sz, size_t n, FILE* f) {
  SymFile* s = S(f);
  if (!s) return n;
  if (s->fail_write >= 0 && s->ops++ == s->fail_write) { s->err = true; return 0; }
  size_t t = sz * n;
  CHECKM(s->pos + t <= s->cap, "harness: file capacity");
  if (t) memcpy(s->data + s->pos, p, t);
  s->pos += t;
  if (s->pos > s->len) s->len = s->pos;
  return n;
}
int symfs_fgetc(FILE* f) { SymFile* s = S(f); if (s->pos >= s->len) { s->eof = true; return EOF; } return s->data[s->pos++]; }
int symfs_fputc(int c, FILE* f) { uint8_t b = (uint8_t)c; return symfs_fwrite(&b, 1, 1, f) == 1 ? b : EOF; }
int symfs_feof(FILE* f) { return S(f)->eof; }
int symfs_ferror(FILE* f) { return S(f)->err; }
void symfs_clearerr(FILE* f) { SymFile* s = S(f); s->eof = s->err = false; }
int symfs_fseeko(FILE* f, off_t off, int whence) {
  SymFile* s = S(f);
  if (s->no_seek) return -1;
  int64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (int64_t)s->pos : (int64_t)s->len;
  if (off < 0 && base + off < 0) return -1;
  if (off > 0 && base > INT64_MAX - off) return -1;
  s->pos = (size_t)(base + off);
  s->eof = false;
  return 0;
}
int symfs_fseek(FILE* f, long off, int whence) { return symfs_fseeko(f, off, whence); }
long symfs_ftell(FILE* f) { return (long)S(f)->pos; }
off_t symfs_ftello(FILE* f) { return (off_t)S(f)->pos; }
int symfs_fflush(FILE* f) { return 0; }
}
