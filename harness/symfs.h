// In-memory stand-in for stdio files (pre-included into every source of a unit, so the code under
// test reaches no real file).  Files are identified by the first character of their name.
#pragma once
#include <stdio.h>
#include <cstdio>
#include <stdint.h>
#include <sys/types.h>
struct SymFile {
  uint8_t* data;
  size_t len, cap, pos;
  bool eof, err, open, exists;
  bool no_seek;          // a pipe: seeking fails
  size_t cut;            // a single read never crosses this position (0: none)
  long ops, fail_write;  // index of the write that fails (-1: none)
  int closes;
};
extern SymFile symfs_files[4];
extern "C" {
FILE* symfs_fopen(const char* name, const char* mode);
int symfs_fclose(FILE* f);
size_t symfs_fread(void* p, size_t s, size_t n, FILE* f);
size_t symfs_fwrite(const void* p, size_t s, size_t n, FILE* f);
int symfs_fgetc(FILE* f);
int symfs_fputc(int c, FILE* f);
int symfs_feof(FILE* f);
int symfs_ferror(FILE* f);
void symfs_clearerr(FILE* f);
int symfs_fseek(FILE* f, long off, int whence);
int symfs_fseeko(FILE* f, off_t off, int whence);
long symfs_ftell(FILE* f);
off_t symfs_ftello(FILE* f);
int symfs_fflush(FILE* f);
}
// file 'a'..'d' with room for cap bytes
SymFile* symfs_make(char name, size_t cap);
SymFile* symfs_get(char name);
namespace std {
using ::symfs_fopen; using ::symfs_fclose; using ::symfs_fread; using ::symfs_fwrite; using ::symfs_fgetc; using ::symfs_fputc;
using ::symfs_feof; using ::symfs_ferror; using ::symfs_clearerr; using ::symfs_fseek; using ::symfs_ftell; using ::symfs_fflush;
}
#ifndef SYMFS_IMPL
#undef feof
#undef ferror
#undef clearerr
#define fopen symfs_fopen
#define fclose symfs_fclose
#define fread symfs_fread
#define fwrite symfs_fwrite
#define fgetc symfs_fgetc
#define fputc symfs_fputc
#define feof symfs_feof
#define ferror symfs_ferror
#define clearerr symfs_clearerr
#define fseek symfs_fseek
#define fseeko symfs_fseeko
#define ftell symfs_ftell
#define ftello symfs_ftello
#define fflush symfs_fflush
#endif
