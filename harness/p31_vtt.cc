#include <stdlib.h>
#include <string.h>
#include <list>
#include <string>
#include "webvtt/webvttparser.h"
#include "symx.h"
using namespace libwebvtt;
#ifndef A
#define A 4
#define B 4
#endif
static char txt[128];
static int len = 0;
struct Src : Reader {
  int at = 0, fail_at = -1;
  int GetChar(char* c) override {
    if (fail_at >= 0 && at == fail_at) return -7;
    if (at >= len) return 1;
    *c = txt[at++];
    return 0;
  }
  virtual ~Src() {}
};
static void lit(const char* s) { while (*s) txt[len++] = *s++; }
static void any(int n, const char* name, bool nul = false) {
  for (int i = 0; i < n; i++) {
    uint8_t c = symx_u8(name);
    if (!nul) symx_assume(c != 0);
    txt[len++] = (char)c;
  }
}
// ---- reference: lines first, then cues ----
struct Ln { int b, n; bool bad; };
static Ln ln[64];
static int nl = 0, cur = 0;
static void split(int from) {
  nl = cur = 0;
  int b = from;
  for (int i = from;; i++) {
    bool bad = false;
    if (i == len) { if (i > b) ln[nl++] = {b, i - b, false}; break; }
    char c = txt[i];
    if (c == '\n') { ln[nl++] = {b, i - b, false}; b = i + 1; }
    else if (c == '\r') { ln[nl++] = {b, i - b, false}; if (i + 1 < len && txt[i + 1] == '\n') i++; b = i + 1; }
    else if (c == '\xFE' || c == '\xFF') { ln[nl++] = {b, i - b, true}; break; }  // everything after is unreachable
    (void)bad;
  }
}
static bool ws(char c) { return c == ' ' || c == '\t'; }
static bool dig(char c) { return c >= '0' && c <= '9'; }
// a time between p and e, surrounded by blanks on the left; returns the end or -1
static int number(int p, int e, int64_t* v, int* digits) {
  *v = 0;
  *digits = 0;
  while (p < e && dig(txt[p])) { *v = *v * 10 + (txt[p] - '0'); if (*v > 0x7FFFFFFF) return -1; p++; (*digits)++; }
  return *digits ? p : -1;
}
struct HMS { int h, m, s, f; };
static int timeAt(int p, int e, HMS* t) {
  while (p < e && ws(txt[p])) p++;
  int64_t a, b = 0, c = 0, f = 0;
  int dg, parts = 1;
  if ((p = number(p, e, &a, &dg)) < 0) return -1;
  if (p < e && txt[p] == ':') {
    if ((p = number(p + 1, e, &b, &dg)) < 0 || b >= 60) return -1;
    parts = 2;
    if (p < e && txt[p] == ':') { if ((p = number(p + 1, e, &c, &dg)) < 0 || c >= 60) return -1; parts = 3; }
    else if (a >= 60) return -1;
  }
  if (p < e && txt[p] == '.') {
    if ((p = number(p + 1, e, &f, &dg)) < 0 || dg > 3) return -1;
    for (; dg < 3; dg++) f *= 10;
  }
  if (p < e && !ws(txt[p])) return -1;
  int n = (int)a;
  if (parts == 1) *t = {n / 3600, n / 60 % 60, n % 60, (int)f};
  else if (parts == 2) *t = {0, n, (int)b, (int)f};
  else *t = {n, (int)b, (int)c, (int)f};
  return p;
}
static int arrow(const Ln& l) {
  for (int i = l.b; i + 3 <= l.b + l.n; i++) if (txt[i] == '-' && txt[i + 1] == '-' && txt[i + 2] == '>') return i;
  return -1;
}
struct RefCue { int id; HMS start, stop; int nset, sn[16], snl[16], sv[16], svl[16]; int first, n; };
// 0 cue, 1 end, -1 malformed
static int refCue(RefCue* q) {
  while (cur < nl && !ln[cur].bad && ln[cur].n == 0) cur++;
  if (cur == nl) return 1;
  if (ln[cur].bad) return -1;
  q->id = -1;
  int a = arrow(ln[cur]);
  if (a < 0) {
    q->id = cur++;
    if (cur == nl || ln[cur].bad) return -1;
    if ((a = arrow(ln[cur])) < 0) return -1;
  }
  const Ln& l = ln[cur++];
  int e = l.b + l.n;
  int p = timeAt(l.b, a, &q->start);
  if (p < 0) return -1;
  while (p < a && ws(txt[p])) p++;
  if (p != a) return -1;
  if ((p = timeAt(a + 3, e, &q->stop)) < 0) return -1;
  q->nset = 0;
  for (;;) {
    while (p < e && ws(txt[p])) p++;
    if (p == e) break;
    int s = q->nset++;
    q->sn[s] = p;
    while (p < e && !ws(txt[p]) && txt[p] != ':') p++;
    q->snl[s] = p - q->sn[s];
    if (p == e || txt[p] != ':' || q->snl[s] == 0) return -1;
    q->sv[s] = ++p;
    while (p < e && !ws(txt[p]) && txt[p] != ':') p++;
    q->svl[s] = p - q->sv[s];
    if (q->svl[s] == 0 || (p < e && txt[p] == ':')) return -1;
  }
  q->first = cur;
  q->n = 0;
  while (cur < nl && (ln[cur].bad || ln[cur].n)) {
    if (ln[cur].bad) return -1;
    cur++;
    q->n++;
  }
  if (cur < nl) cur++;
  return q->n ? 0 : -1;
}
static bool eq(const std::string& s, int b, int n) {
  if (s.size() != (size_t)n) return false;
  for (int i = 0; i < n; i++) if (s[i] != txt[b + i]) return false;
  return true;
}
static bool sameTime(const Time& t, const HMS& r) { return t.hours == r.h && t.minutes == r.m && t.seconds == r.s && t.milliseconds == r.f; }
static int headerRef(int* body) {  // 0 ok, -1 not WebVTT
  int p = 0;
  if (len > 0 && txt[0] == '\xEF') {
    if (len < 3 || txt[1] != '\xBB' || txt[2] != '\xBF') return -1;
    p = 3;
  }
  if (p + 6 > len || memcmp(txt + p, "WEBVTT", 6)) return -1;
  split(p + 6);
  *body = 0;
  if (nl == 0) return 0;
  if (ln[0].bad) return -1;
  if (ln[0].n && !ws(txt[ln[0].b])) return -1;
  if (nl == 1) { cur = 1; return 0; }
  if (ln[1].bad || ln[1].n) return -1;
  cur = 2;
  return 0;
}
static void judge() {
  Src src;
  Parser p(&src);
  int body, want = headerRef(&body), e = p.Init();
  CHECKM((e == 0) == (want == 0), "a WebVTT header is recognised exactly");
  if (e) { CHECKM(e < 0, "errors are negative"); symx_reach("no-header"); return; }
  for (int k = 0; k < 4; k++) {
    RefCue q;
    Cue c;
    int w = refCue(&q), g = p.Parse(&c);
    CHECKM(w == 0 ? g == 0 : w > 0 ? g > 0 : g < 0, "cue, end of stream and malformed input are told apart");
    if (w || g) { symx_reach(w > 0 ? "end" : "malformed"); return; }
    CHECKM(q.id < 0 ? c.identifier.empty() : eq(c.identifier, ln[q.id].b, ln[q.id].n), "identifier");
    CHECKM(sameTime(c.start_time, q.start), "start time");
    CHECKM(sameTime(c.stop_time, q.stop), "stop time");
    CHECKM((int)c.settings.size() == q.nset, "number of settings");
    int s = 0;
    for (const Setting& st : c.settings) { if (s < q.nset) { CHECKM(eq(st.name, q.sn[s], q.snl[s]) && eq(st.value, q.sv[s], q.svl[s]), "setting"); symx_reach("setting"); } s++; }
    CHECKM((int)c.payload.size() == q.n, "number of payload lines");
    s = 0;
    for (const std::string& l : c.payload) { if (s < q.n) CHECKM(eq(l, ln[q.first + s].b, ln[q.first + s].n), "payload line"); s++; }
    symx_reach("cue");
    if (k) symx_reach("second-cue");
  }
}
static bool legal(const Time& t) { return t.hours >= 0 && t.minutes >= 0 && t.minutes < 60 && t.seconds >= 0 && t.seconds < 60 && t.milliseconds >= 0 && t.milliseconds < 1000; }
static Time any_time(const char* n) {
  Time t;
  t.hours = (int)symx_u32(n); t.minutes = symx_u8(n); t.seconds = symx_u8(n); t.milliseconds = symx_u16(n);
  symx_assume(legal(t));
  return t;
}
extern "C" void symx_main() {
#if MODE == 0  // start of the stream
  any((int)symx_pick("n", 0, 2), "head");
  if (symx_pick("bom", 0, 1)) lit("\xEF\xBB\xBF");
  int cut = (int)symx_pick("cut", 4, 6);
  for (int i = 0; i < cut; i++) txt[len++] = "WEBVTT"[i];
  any((int)symx_pick("m", 0, A), "rest");
  judge();
#elif MODE == 1  // start time
  lit("WEBVTT\n\n");
  any((int)symx_pick("n", 1, A), "time");
  lit("-->1\nx");
  judge();
#elif MODE == 2  // stop time and settings
  lit("WEBVTT\n\n0-->");
  any((int)symx_pick("n", 1, A), "stop");
  lit("\ny\n");
  judge();
#elif MODE == 3  // settings
  lit("WEBVTT\n\n0-->1 ");
  any((int)symx_pick("n", 1, A), "set");
  lit("\ny\n");
  judge();
#elif MODE == 4  // line structure around a timings line
  lit("WEBVTT\n\n");
  any((int)symx_pick("n", 0, A), "before");
  lit("1-->2");
  any((int)symx_pick("m", 0, B), "after");
  if (symx_pick("two", 0, 1)) { lit("\n3-->4\nz"); }
  judge();
#elif MODE == 5  // long times: hours, minutes, seconds with fraction
  lit("WEBVTT\n\n");
  int h = (int)symx_pick("hd", 0, 3);
  for (int i = 0; i < h; i++) { uint8_t c = symx_u8("h"); symx_assume(c >= '0' && c <= '9'); txt[len++] = (char)c; }
  if (h) lit(":");
  for (int k = 0; k < 2; k++) { for (int i = 0; i < 2; i++) { uint8_t c = symx_u8("d"); symx_assume(c >= '0' && c <= '9'); txt[len++] = (char)c; } if (!k) lit(":"); }
  int f = (int)symx_pick("fd", 0, 4);
  if (f) lit(".");
  for (int i = 0; i < f; i++) { uint8_t c = symx_u8("f"); symx_assume(c >= '0' && c <= '9'); txt[len++] = (char)c; }
  lit(" --> 12345\nx");
  judge();
#elif MODE == 6  // time comparisons
  Time a = any_time("a"), b = any_time("b");
  int64_t x = a.hours * 3600000ll + a.minutes * 60000ll + a.seconds * 1000ll + a.milliseconds;
  int64_t y = b.hours * 3600000ll + b.minutes * 60000ll + b.seconds * 1000ll + b.milliseconds;
  CHECK(a.presentation() == x);
  CHECK(a - b == x - y);
  bool lt = a.hours != b.hours ? a.hours < b.hours : a.minutes != b.minutes ? a.minutes < b.minutes : a.seconds != b.seconds ? a.seconds < b.seconds : a.milliseconds < b.milliseconds;
  bool same = a.hours == b.hours && a.minutes == b.minutes && a.seconds == b.seconds && a.milliseconds == b.milliseconds;
  CHECK((a == b) == same);
  CHECK((a < b) == lt);
  CHECK((a > b) == (!lt && !same));
  CHECK((a <= b) == (lt || same));
  CHECK((a >= b) == !lt);
  symx_reach("time");
#elif MODE == 7  // milliseconds to time and time arithmetic, around chosen points
  static const int64_t P[] = {0, 1000, 59000, 3600000, 86400000, 2147483000ll, 4294967000ll, 359999999000ll, 7730941132800000ll - 70000};
  int64_t p = P[symx_pick("p", 0, 8)];
  int64_t d = p + (symx_u32("d") & ((1u << A) - 1));
  Time u;
  Time& r = u.presentation(d);
  CHECK(&r == &u);
  CHECK(legal(u));
  CHECK(u.hours * 3600000ll + u.minutes * 60000ll + u.seconds * 1000ll + u.milliseconds == d);
  u.presentation(-1 - d);
  CHECK(u.hours == 0 && u.minutes == 0 && u.seconds == 0 && u.milliseconds == 0);
  symx_reach("time");
#elif MODE == 8  // time arithmetic
  static const int64_t P[] = {0, 999, 59000, 3599000, 2147483000ll};
  static const int64_t D[] = {0, 1, 999, 1000, 59999, 60000, 3599999, 3600000, -1, -1000, -3600000, 2147483648ll, 3000000000ll};
  int64_t p = P[symx_pick("p", 0, 4)], d = D[symx_pick("d", 0, 12)];
  int64_t ms = p + (symx_u32("d") & ((1u << A) - 1));
  Time t;
  t.hours = (int)(ms / 3600000); t.minutes = (int)(ms / 60000 % 60); t.seconds = (int)(ms / 1000 % 60); t.milliseconds = (int)(ms % 1000);
  int64_t want = ms + d < 0 ? 0 : ms + d;
  Time a = t + d, b = t;
  b -= -d;
  CHECK(legal(a));
  CHECK(a.hours * 3600000ll + a.minutes * 60000ll + a.seconds * 1000ll + a.milliseconds == want);
  CHECK(a == b);
  b = a + 0;
  CHECK(a == b);
  symx_reach("time");
#elif MODE == 9  // memory safety and termination with NUL bytes and read errors
  lit("WEBVTT\n\n");
  any((int)symx_pick("n", 0, A), "x", true);
  lit("0-->");
  any((int)symx_pick("m", 0, B), "x", true);
  Src src;
  src.fail_at = (int)symx_pick("fail", 0, 1) ? (int)symx_pick("failat", 0, len - 1) : -1;
  Parser p(&src);
  int e = p.Init();
  for (int k = 0; k < 4 && e == 0; k++) { Cue c; e = p.Parse(&c); }
  if (src.fail_at >= 0 && e > 0) CHECKM(false, "a read error is not an end of stream");
  symx_reach(e < 0 ? "error" : "done");
#endif
}
