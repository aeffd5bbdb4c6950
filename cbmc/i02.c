/* I02: JSON tokens. TOK: read tokens of an arbitrary byte string; STR: string written and read back */
#include "bmc.h"
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <ctype.h>
#ifdef __CPROVER
#undef isdigit
#undef isxdigit
#undef iscntrl
#define isdigit(c) ((c) >= '0' && (c) <= '9')
#define isxdigit(c) (isdigit(c) || ((c) >= 'a' && (c) <= 'f') || ((c) >= 'A' && (c) <= 'F'))
#define iscntrl(c) (((c) >= 0 && (c) < 32) || (c) == 127)
static long i02_hex(const char *s, char **e, int base) { long v = 0; for (int i = 0; i < 8 && isxdigit(s[i]); i++) { int d = isdigit(s[i]) ? s[i] - '0' : (s[i] | 32) - 'a' + 10; if (d >= base) break; v = v * base + d; } return v; }
#define strtol i02_hex
#define strtoul i02_hex
#define atoi(s) ((int)i02_hex(s, 0, 10))
#endif
#include "io/ios.c"
#include "io/json_reader.c"
#include "io/json_writer.c"
#ifndef LEN
#define LEN 6
#endif
#ifndef PREK
#define PRE ""
#elif PREK == 1
#define PRE "\"a\\u0"
#elif PREK == 2
#define PRE "-10."
#elif PREK == 3
#define PRE "2e"
#elif PREK == 4
#define PRE " fal"
#elif PREK == 5
#define PRE "[7,"
#elif PREK == 6
#define PRE "\"ab\\"
#elif PREK == 7
#define PRE "nul"
#endif
#define PL ((int)sizeof(PRE) - 1)
#define TOT (PL + LEN)
static unsigned char in[TOT + 1]; static char copy[TOT + 1];
/* reference scanner: the token at *pos; text and its length; returns 0 for a malformed token, 2 where the grammar is stricter than promised */
static unsigned char ref_text[TOT + 2]; static int ref_len, ref_pos, ref_tok;
static int delim(int c) { return c == ',' || c == ']' || c == '}' || c == ' ' || c == '\n' || c == '\r' || c == '\t'; }
static int digit(int c) { return c >= '0' && c <= '9'; }
static int hex(int c) { return digit(c) ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static int word(const char *w, int p, int n) { for (int i = 0; w[i]; i++) if (p + i >= n || in[p + i] != (unsigned char)w[i]) return 0; return 1; }
static int scan(int p, int n) {
  int c, odd = 0; ref_len = 0;
  while (p < n && (in[p] == ' ' || in[p] == '\t' || in[p] == '\n' || in[p] == '\r')) p++;
  if (p >= n || !in[p]) { ref_tok = ARMAS_JSON_EOF; return 1; }
  c = in[p];
  if (c == '{' || c == '}' || c == '[' || c == ']' || c == ':' || c == ',') { ref_tok = c; ref_pos = p + 1; return 1; }
  if (c == 't' || c == 'f' || c == 'n') {
    const char *w = c == 't' ? "true" : c == 'f' ? "false" : "null"; if (!word(w, p, n)) return 0;
    ref_tok = c == 't' ? ARMAS_JSON_TRUE : c == 'f' ? ARMAS_JSON_FALSE : ARMAS_JSON_NULL; ref_pos = p + (c == 'f' ? 5 : 4); return 1;
  }
  if (c == '"') {
    for (p++; p < n && in[p] != '"'; ) {
      if (in[p] != '\\') { if (in[p] < 32) odd = 1; ref_text[ref_len++] = in[p++]; continue; }
      if (p + 1 >= n) return 0;
      int e = in[p + 1]; p += 2;
      if (e == 'u') { if (p + 4 > n) return 0; int v = 0; for (int k = 0; k < 4; k++) { int h = hex(in[p + k]); if (h < 0) return 0; v = v * 16 + h; } if (v > 255 || !v) odd = 1; p += 4; ref_text[ref_len++] = v; continue; }
      int t = e == '"' || e == '\\' || e == '/' ? e : e == 'b' ? '\b' : e == 'f' ? '\f' : e == 'n' ? '\n' : e == 'r' ? '\r' : e == 't' ? '\t' : -1;
      if (t < 0) return 0; ref_text[ref_len++] = t;
    }
    if (p >= n) return 0;
    ref_tok = ARMAS_JSON_STRING; ref_pos = p + 1; return odd ? 2 : 1;
  }
  if (c == '-' || digit(c)) {
    int q = p, d = 0; if (c == '-') q++;
    if (q < n && in[q] == '0' && q + 1 < n && digit(in[q + 1])) odd = 1;
    for (; q < n && digit(in[q]); q++) d++; if (!d) return 0;
    if (q < n && in[q] == '.') { d = 0; for (q++; q < n && digit(in[q]); q++) d++; if (!d) odd = 1; }
    if (q < n && (in[q] == 'e' || in[q] == 'E')) { q++; if (q < n && (in[q] == '+' || in[q] == '-')) q++; d = 0; for (; q < n && digit(in[q]); q++) d++; if (!d) return 0; }
    if (q < n && !delim(in[q])) return 0;
    for (; p < q; p++) ref_text[ref_len++] = in[p]; ref_tok = ARMAS_JSON_NUMBER; ref_pos = q; return odd ? 2 : 1;
  }
  return 0;
}
static int is_err(int t) { return t == ARMAS_JSON_EINVAL || t == ARMAS_JSON_E2BIG || t == ARMAS_JSON_EOF; }
void bmc_main(void) {
#ifdef TOK
  int n = nd_in(0, LEN); for (int i = 0; i < PL; i++) in[i] = PRE[i]; for (int i = 0; i < LEN; i++) if (i < n) in[PL + i] = nd_in(0, 255); n += PL;
  for (int i = 0; i < TOT; i++) copy[i] = in[i];
  int len = nd_in(0, TOT + 2); char arr[TOT + 6], *buf = arr + 2; for (int i = 0; i < TOT + 6; i++) arr[i] = 0x5a; armas_iostream_t ios; struct armas_wbuf wb; int kind = nd_in(0, 1), pos = 0;
  if (kind) armas_ios_string(&ios, copy, n); else { wb = (struct armas_wbuf){ .buf = copy, .bytes = n, .offset = 0 }; armas_ios_wbuf(&ios, &wb); }
  for (int k = 0; k < NTOK; k++) {
    int t = armas_json_read_token(buf, len, &ios), w = scan(pos, n); struct armas_wbuf *s = ios.stream;
    CHECK(s->offset <= (size_t)n, "stream position within the input");
    for (int i = 0; i < TOT; i++) CHECK((unsigned char)copy[i] == in[i], "input unchanged");
    for (int i = 0; i < TOT + 6; i++) CHECK((i >= 2 && i < len + 2) || arr[i] == 0x5a, "memory outside the token buffer unchanged");
    if (t == ARMAS_JSON_STRING || t == ARMAS_JSON_NUMBER) { int z = 0; for (int i = 0; i < len; i++) if (!buf[i]) z = 1; CHECK(z, "token text terminated"); }
    if (w == 0) { CHECK(is_err(t), "malformed token rejected"); break; }
    if (w == 2) break;
    if (ref_tok == ARMAS_JSON_EOF) { CHECK(t == ARMAS_JSON_EOF || (len < 2 && t == ARMAS_JSON_E2BIG), "end of input"); break; }
    if (len < 2 || ref_len >= len - 1) { if (ref_len >= len && ref_len) CHECK(t == ARMAS_JSON_E2BIG, "text longer than the buffer is refused"); if (t == ARMAS_JSON_E2BIG) break; }
    CHECK(t == ref_tok, "token");
    if (t == ARMAS_JSON_STRING || t == ARMAS_JSON_NUMBER) { for (int i = 0; i < ref_len; i++) CHECK((unsigned char)buf[i] == ref_text[i], "token text"); CHECK(!buf[ref_len], "token text length"); }
    CHECK(s->offset == (size_t)ref_pos, "stream stands behind the token"); pos = ref_pos;
  }
  if (kind) armas_ios_close(&ios);

#else
  /* strings: every character that JSON strings of this writer can carry */
  int n = nd_in(0, LEN), cap = nd_in(0, 2 * LEN + 2); char s[LEN + 1], out[2 * LEN + 2], buf[LEN + 3]; int need = 2;
  for (int i = 0; i < LEN; i++) { int c = i < n ? nd_in(1, 255) : 0; ASSUME(i >= n || c >= 32 || c == '\t' || c == '\n' || c == '\r' || c == '\b'); ASSUME(c != 127); s[i] = c; need += c == 0 ? 0 : c < 32 || c == '"' || c == '\\' || c == '/' ? 2 : 1; }
  s[n] = 0; struct armas_wbuf wb = { .buf = out, .bytes = cap, .offset = 0 }; armas_iostream_t ios; armas_ios_wbuf(&ios, &wb);
  int rc = armas_json_write_token(ARMAS_JSON_STRING, s, n, &ios);
  CHECK(wb.offset <= (size_t)cap, "no write beyond the stream");
  if (cap < need) { if (n) CHECK(rc < 0, "full stream reported"); }
  else {
    CHECK(rc == 0, "string written"); CHECK(wb.offset == (size_t)need, "bytes written"); wb.bytes = wb.offset; wb.offset = 0;
    int t = armas_json_read_token(buf, sizeof(buf), &ios); CHECK(t == ARMAS_JSON_STRING, "string read back");
    for (int i = 0; i <= n; i++) CHECK(buf[i] == s[i], "character read back"); CHECK(wb.offset == (size_t)need, "stream stands behind the string");
  }
#endif
}
