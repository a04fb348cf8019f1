/* Native replay: loads a harness library and implements the intrinsics from a
 * file of concrete inputs ("name#k=hex").  Exit codes: 0 finished, 10 an
 * assertion failed, 11 panic outside sym_try, 12 an assumption is false,
 * 13 missing library/entry. */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <setjmp.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
typedef struct { char *k; char *v; } KV;
static KV *in; static size_t nin; static KV cnt[4096]; static size_t ncnt; static int failed;
static jmp_buf *top; static int depth;
static int bump(const char *raw, size_t l) {
  for (size_t i = 0; i < ncnt; i++) if (strlen(cnt[i].k) == l && !memcmp(cnt[i].k, raw, l)) return (int)(intptr_t)(cnt[i].v = (char *)((intptr_t)cnt[i].v + 1));
  cnt[ncnt].k = strndup(raw, l); cnt[ncnt++].v = 0; return 0;
}
static const char *find(const char *raw, size_t l) {
  char *key; int k = bump(raw, l); if (asprintf(&key, "%.*s#%d", (int)l, raw, k) < 0) abort();
  for (size_t i = 0; i < nin; i++) if (!strcmp(in[i].k, key)) return in[i].v;
  return "";
}
static void unhex(const char *h, uint8_t *p, size_t n) { memset(p, 0, n); size_t m = strlen(h) / 2; for (size_t i = 0; i < n && i < m; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); p[i] = v; } }
void sym_bytes(uint8_t *p, size_t n, const char *s, size_t l) { unhex(find(s, l), p, n); }
uint64_t sym_choose(uint64_t lo, uint64_t hi, const char *s, size_t l) { const char *h = find(s, l); uint64_t v = lo; if (*h) unhex(h, (uint8_t *)&v, 8); if (v < lo || v > hi) { printf("ASSUME choose\n"); exit(12); } return v; }
void sym_assume(int b) { if (!(b & 1)) { printf("ASSUME\n"); fflush(stdout); _exit(failed ? 10 : 12); } }
void sym_assert(int b, const char *s, size_t l) { if (!(b & 1)) { printf("ASSERT %.*s\n", (int)l, s); failed = 1; } }
void sym_cover(const char *s, size_t l) { printf("COVER %.*s\n", (int)l, s); }
void sym_observe(const char *s, size_t l, const uint8_t *p, size_t n) { printf("OBS %.*s=", (int)l, s); for (size_t i = 0; i < n; i++) printf("%02x", p[i]); printf("\n"); }
int sym_bytes_eq(const void *a, const void *b, size_t n) { return memcmp(a, b, n) == 0; }
uint64_t sym_concretize(uint64_t v) { return v; }
int sym_is_symbolic(uint64_t v) { return 0; }
static const uint64_t RC[24] = {1, 0x8082, 0x800000000000808aull, 0x8000000080008000ull, 0x808b, 0x80000001, 0x8000000080008081ull, 0x8000000000008009ull, 0x8a, 0x88, 0x80008009, 0x8000000a, 0x8000808b, 0x800000000000008bull, 0x8000000000008089ull, 0x8000000000008003ull, 0x8000000000008002ull, 0x8000000000000080ull, 0x800a, 0x800000008000000aull, 0x8000000080008081ull, 0x8000000000008080ull, 0x80000001, 0x8000000080008008ull};
static uint64_t rol(uint64_t x, int n) { return n ? x << n | x >> (64 - n) : x; }
static void keccakf(uint64_t *s) {
  static const int R[24] = {1, 3, 6, 10, 15, 21, 28, 36, 45, 55, 2, 14, 27, 41, 56, 8, 25, 43, 62, 18, 39, 61, 20, 44}, P[24] = {10, 7, 11, 17, 18, 3, 5, 16, 8, 21, 24, 4, 15, 23, 19, 13, 12, 2, 20, 14, 22, 9, 6, 1};
  for (int r = 0; r < 24; r++) {
    uint64_t b[5], t; for (int i = 0; i < 5; i++) b[i] = s[i] ^ s[i + 5] ^ s[i + 10] ^ s[i + 15] ^ s[i + 20];
    for (int i = 0; i < 5; i++) { t = b[(i + 4) % 5] ^ rol(b[(i + 1) % 5], 1); for (int j = 0; j < 25; j += 5) s[j + i] ^= t; }
    t = s[1]; for (int i = 0; i < 24; i++) { uint64_t u = s[P[i]]; s[P[i]] = rol(t, R[i]); t = u; }
    for (int j = 0; j < 25; j += 5) { for (int i = 0; i < 5; i++) b[i] = s[j + i]; for (int i = 0; i < 5; i++) s[j + i] ^= ~b[(i + 1) % 5] & b[(i + 2) % 5]; }
    s[0] ^= RC[r];
  }
}
void sym_keccak256(const uint8_t *p, size_t n, uint8_t *out) {
  uint64_t st[25] = {0}; uint8_t *b = (uint8_t *)st; size_t i = 0;
  for (; n - i >= 136; i += 136) { for (int k = 0; k < 136; k++) b[k] ^= p[i + k]; keccakf(st); }
  size_t k = 0; for (; i < n; i++, k++) b[k] ^= p[i];
  b[k] ^= 1; b[135] ^= 0x80; keccakf(st); memcpy(out, b, 32);
}
void sym_wide(uint64_t op, const uint8_t *a, const uint8_t *b, uint8_t *o, size_t n) {
  uint8_t r[256] = {0}, q[256] = {0}, t[256];
  if (op == 0) { unsigned c = 0; for (size_t i = 0; i < n; i++) { c += a[i] + b[i]; r[i] = c; c >>= 8; } }
  else if (op == 1) { int c = 0; for (size_t i = 0; i < n; i++) { c += a[i] - b[i]; r[i] = c; c >>= 8; } }
  else if (op == 2) { for (size_t i = 0; i < n; i++) { unsigned c = 0; for (size_t j = 0; i + j < n; j++) { c += r[i + j] + a[i] * b[j]; r[i + j] = c; c >>= 8; } } }
  else {
    int z = 1; for (size_t i = 0; i < n; i++) if (b[i]) z = 0;
    if (z) { memset(q, 255, n); memcpy(r, a, n); }
    else for (size_t i = n * 8; i-- > 0;) {
      int c = (a[i / 8] >> (i % 8)) & 1, top; for (size_t k = 0; k < n; k++) { top = r[k] >> 7; r[k] = r[k] << 1 | c; c = top; }
      int bw = 0; for (size_t k = 0; k < n; k++) { bw += r[k] - b[k]; t[k] = bw; bw >>= 8; }
      if (c || bw == 0) { memcpy(r, t, n); q[i / 8] |= 1 << (i % 8); }
    }
    if (op == 3) memcpy(r, q, n);
  }
  memcpy(o, r, n);
}
uint32_t sym_try(void (*f)(void *), void *d) {
  jmp_buf j, *old = top; top = &j;
  if (setjmp(j)) { top = old; return 1; }
  f(d); top = old; return 0;
}
void sym_panic(const char *f, size_t fl, uint32_t line, const char *m, size_t ml) {
  printf("PANIC %.*s:%u %.*s\n", (int)fl, f, line, (int)(ml > 300 ? 300 : ml), m); fflush(stdout);
  if (top) longjmp(*top, 1);
  _exit(failed ? 10 : 11);
}
int main(int c, char **v) { /* lib entry inputs */
  alarm(60);
  FILE *f = fopen(v[3], "r"); char *line = 0; size_t cap = 0; ssize_t n; in = calloc(65536, sizeof(KV));
  while (f && (n = getline(&line, &cap, f)) > 0) { if (line[n - 1] == '\n') line[n - 1] = 0; char *e = strrchr(line, '='); if (!e) continue; *e = 0; in[nin].k = strdup(line); in[nin++].v = strdup(e + 1); }
  void *h = dlopen(v[1], RTLD_NOW | RTLD_GLOBAL); if (!h) { printf("%s\n", dlerror()); return 13; }
  void (*init)(void) = dlsym(h, "symrt_init"); void (*fn)(void) = dlsym(h, v[2]); if (!fn) { printf("no entry %s\n", v[2]); return 13; }
  if (init) init();
  fn(); fflush(stdout); _exit(failed ? 10 : 0);
}
