// Native replay: feeds a recorded input file to the same harness linked with the
// real code (compiled with AddressSanitizer).
#include "symx.h"
#include <new>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <string>
#include <vector>
static FILE* gIn;
static int64_t gLive;
static bool gCount;
static int64_t gFailAt = -1;
static void fetch(const char* name, unsigned char* out, size_t n) {
  static char* line = nullptr;
  static size_t cap = 0;
  for (;;) {
    ssize_t l = gIn ? getline(&line, &cap, gIn) : -1;
    if (l < 0) { memset(out, 0, n); return; }
    if (line[0] == '!' || line[0] == '#') continue;
    break;
  }
  char* sp = strchr(line, ' ');
  if (!sp || (size_t)(sp - line) != strlen(name) || strncmp(line, name, sp - line)) {
    fprintf(stderr, "REPLAY-DIVERGED: wanted %s got %s\n", name, line);
    _Exit(78);
  }
  sp++;
  size_t i = 0;
  for (; i < n && sp[0] && sp[0] != '\n' && sp[0] != '-'; i++, sp += 2) {
    unsigned v = 0;
    sscanf(sp, "%2x", &v);
    out[i] = (unsigned char)v;
  }
  for (; i < n; i++) out[i] = 0;
}
extern "C" {
uint64_t symx_u64(const char* name) { uint64_t v; fetch(name, (unsigned char*)&v, 8); return v; }
uint32_t symx_u32(const char* name) { uint32_t v; fetch(name, (unsigned char*)&v, 4); return v; }
uint16_t symx_u16(const char* name) { uint16_t v; fetch(name, (unsigned char*)&v, 2); return v; }
uint8_t symx_u8(const char* name) { uint8_t v; fetch(name, &v, 1); return v; }
bool symx_bool(const char* name) { uint8_t v; fetch(name, &v, 1); return v & 1; }
void symx_bytes(void* p, uint64_t n, const char* name) { fetch(name, (unsigned char*)p, n); }
void symx_assume(bool c) {
  if (!c) { fprintf(stderr, "REPLAY-ASSUME-FALSE\n"); fflush(stdout); _Exit(79); }
}
void symx_assert(bool c, const char* msg) {
  if (!c) { printf("ASSERT-FAILED: %s\n", msg); fflush(stdout); _Exit(77); }
}
void symx_reach(const char* l) { printf("REACH %s\n", l); }
uint64_t symx_concretize(uint64_t v) { return v; }
int64_t symx_live() { return gLive; }
int symx_is_symbolic_run() { return 0; }
void symx_alloc_fail_at(int64_t n) { gFailAt = n; }
void symx_stop() { printf("REPLAY-COMPLETE\n"); fflush(stdout); _Exit(0); }
void symx_debug(const char* tag, uint64_t v) { printf("DBG %s %llu (0x%llx)\n", tag, (unsigned long long)v, (unsigned long long)v); }
}
// kind tags so that new/delete[] mixes are caught, and live objects counted
struct Hdr { uint64_t magic; uint64_t kind; };
static void* alloc(size_t n, uint64_t kind, bool nothrow) {
  if (nothrow && gFailAt == 0) { gFailAt = -1; return nullptr; }
  if (nothrow && gFailAt > 0) gFailAt--;
  if (n > (1ull << 30)) { if (nothrow) return nullptr; fprintf(stderr, "REPLAY-OOM\n"); _Exit(0); }
  void* p = malloc(n);
  if (gCount) gLive++;
  return p;
}
#include <unordered_map>
static std::unordered_map<void*, int, std::hash<void*>, std::equal_to<void*>>* gKinds;
static bool gBusy;
static void* track(void* p, int k) {
  if (p && gCount && !gBusy) { gBusy = true; (*gKinds)[p] = k; gBusy = false; }
  return p;
}
static void rel(void* p, int k) {
  if (!p) return;
  if (gCount && !gBusy) {
    gBusy = true;
    auto it = gKinds->find(p);
    int was = it == gKinds->end() ? -1 : it->second;
    if (it != gKinds->end()) gKinds->erase(it);
    gBusy = false;
    if (was >= 0 && was != k) { printf("ASSERT-FAILED: mismatched new/delete\n"); fflush(stdout); _Exit(77); }
    if (was >= 0) gLive--;
  }
  free(p);
}
static void* mk(size_t n, int k, bool nt) {
  if (gBusy) return malloc(n);
  return track(alloc(n, k, nt), k);
}
void* operator new(size_t n) { return mk(n, 1, false); }
void* operator new[](size_t n) { return mk(n, 2, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return mk(n, 1, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return mk(n, 2, true); }
void operator delete(void* p) noexcept { rel(p, 1); }
void operator delete[](void* p) noexcept { rel(p, 2); }
void operator delete(void* p, size_t) noexcept { rel(p, 1); }
void operator delete[](void* p, size_t) noexcept { rel(p, 2); }
int main(int argc, char** argv) {
  gBusy = true;
  gKinds = new std::unordered_map<void*, int, std::hash<void*>, std::equal_to<void*>>;
  gBusy = false;
  gIn = argc > 1 ? fopen(argv[1], "r") : nullptr;
  gCount = true;
  symx_main();
  printf("REPLAY-COMPLETE\n");
  fflush(stdout);
  _Exit(0);
}
