// Native replayer: runs one harness entry of a compiled harness library on the inputs of a model file.
// Exit status: 0 held, 42 a check failed, 77 an assumption is false, other: crash.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
static FILE *model;
static int next(const char *name, size_t nl, unsigned char *out, size_t n) {
  static char *line; static size_t cap;
  memset(out, 0, n);
  if (!model) return 0;
  ssize_t k = getline(&line, &cap, model);
  if (k <= 0) return 0;
  char *sp = strrchr(line, ' ');
  if (!sp) return 0;
  *sp = 0;
  if (strlen(line) != nl || memcmp(line, name, nl)) { fprintf(stderr, "REPLAY: input mismatch (model %s, harness %.*s)\n", line, (int)nl, name); exit(78); }
  char *h = sp + 1;
  for (size_t i = 0; i < n && h[0] && h[0] != '\n' && h[1]; i++, h += 2) { unsigned v; sscanf(h, "%2x", &v); out[i] = v; }
  return 1;
}
void vp_sym(unsigned char *p, size_t n, const char *name, size_t nl) { next(name, nl, p, n); }
void vp_assume(_Bool c) { if (!c) { printf("ASSUME-FALSE\n"); fflush(stdout); _Exit(77); } }
void vp_check(_Bool c, const char *m, size_t n) { if (!c) { printf("CHECK-FAILED %.*s\n", (int)n, m); fflush(stdout); _Exit(42); } }
uint64_t vp_choose(uint64_t n, const char *name, size_t nl) { uint64_t v; next(name, nl, (unsigned char *)&v, 8); return n ? v % n : 0; }
void vp_reach(const char *m, size_t n) { printf("REACH %.*s\n", (int)n, m); fflush(stdout); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_debug(uint64_t v, const char *m, size_t n) { if (getenv("VP_DEBUG")) printf("DEBUG %.*s %llu\n", (int)n, m, (unsigned long long)v); }
uint32_t vp_is_symbolic(void) { return 0; }
void vp_panic_trace(void) {}
void vp_unsupported(const char *m, size_t n) { fprintf(stderr, "UNSUPPORTED %.*s\n", (int)n, m); _Exit(79); }
void vp_hash(const unsigned char *p, size_t n, unsigned char *out) {
  uint64_t s[4] = {0x243F6A8885A308D3ull, 0x13198A2E03707344ull, 0xA4093822299F31D0ull, 0x082EFA98EC4E6C89ull};
  for (int rep = 0; rep < 2; rep++)
    for (size_t i = 0; i <= n; i++) {
      uint64_t b = i < n ? p[i] : n + 256;
      for (int k = 0; k < 4; k++) { s[k] ^= (b + 0x9E3779B97F4A7C15ull * (k + 1)); s[k] *= 0xff51afd7ed558ccdull; s[k] ^= s[k] >> 31; s[(k + 1) & 3] += s[k]; }
    }
  for (int i = 0; i < 32; i++) out[i] = (s[i / 8] >> (8 * (i % 8))) & 255;
}
int main(int argc, char **argv) {
  if (argc < 3) { fprintf(stderr, "usage: vprun LIB ENTRY [MODEL]\n"); return 2; }
  void *h = dlopen(argv[1], RTLD_NOW | RTLD_GLOBAL);
  if (!h) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  void (*f)(void) = (void (*)(void))dlsym(h, argv[2]);
  if (!f) { fprintf(stderr, "%s\n", dlerror()); return 2; }
  if (argc > 3) model = fopen(argv[3], "r");
  f();
  printf("DONE\n");
  return 0;
}
