/* Native counterpart of the symbolic intrinsics: a counterexample (or a
 * sampled path) found by the engine is replayed against the compiled code.
 * argv[1] = input file, argv[2] = allocation limit. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

static uint8_t *in; static size_t in_len, in_pos; static size_t limit = 1u << 24;
static uint64_t live;

void *__real_malloc(size_t n); void *__real_calloc(size_t a, size_t b);
void *__real_realloc(void *p, size_t n); void __real_free(void *p);
int __real_posix_memalign(void **p, size_t a, size_t n);
static void big(size_t n) {
    if (n > limit) { printf("HUGEALLOC %zu\n", n); fflush(stdout); _Exit(44); }
}
static int armed;
void *__wrap_malloc(size_t n) { if (armed) { big(n); live++; } return __real_malloc(n); }
void *__wrap_calloc(size_t a, size_t b) {
    if (armed) { size_t t; if (__builtin_mul_overflow(a, b, &t)) t = ~(size_t)0; big(t); live++; }
    return __real_calloc(a, b);
}
void *__wrap_realloc(void *p, size_t n) {
    if (armed) { big(n); if (!p) live++; }
    return __real_realloc(p, n);
}
void __wrap_free(void *p) { if (armed && p) live--; __real_free(p); }
int __wrap_posix_memalign(void **p, size_t a, size_t n) {
    if (armed) { big(n); live++; }
    return __real_posix_memalign(p, a, n);
}
void symx_bytes(uint8_t *p, size_t n, uint32_t tag) {
    (void)tag;
    for (size_t i = 0; i < n; i++) p[i] = in_pos < in_len ? in[in_pos++] : 0;
}
uint64_t symx_pick(uint64_t lo, uint64_t hi) {
    uint8_t b[8]; uint64_t v = 0;
    symx_bytes(b, 8, 0);
    for (int i = 7; i >= 0; i--) v = v << 8 | b[i];
    if (v < lo || v > hi) { printf("PICKFAIL\n"); fflush(stdout); _Exit(43); }
    return v;
}
void symx_assume(_Bool c) { if (!c) { printf("ASSUMEFAIL\n"); fflush(stdout); _Exit(43); } }
void symx_check(_Bool c, uint32_t id) {
    if (!c) { printf("CHECKFAIL %u\n", id); fflush(stdout); _Exit(42); }
}
void symx_reach(uint32_t id) { (void)id; }
void symx_observe(uint32_t id, uint64_t v) { printf("OBS %u %llx\n", id, (unsigned long long)v); }
uint64_t symx_heap(void) { return live; }

struct h { const char *name; void (*f)(void); };
extern const struct h harnesses[];
int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *f = fopen(argv[2], "rb");
    if (!f) return 2;
    in = __real_malloc(1 << 20);
    in_len = fread(in, 1, 1 << 20, f);
    fclose(f);
    if (argc > 3) limit = strtoull(argv[3], 0, 10);
    static char obuf[1 << 16];
    setvbuf(stdout, obuf, _IOFBF, sizeof obuf);
    for (const struct h *h = harnesses; h->name; h++)
        if (!strcmp(h->name, argv[1])) {
            armed = 1; h->f(); armed = 0;
            printf("DONE\n"); fflush(stdout); _Exit(0);
        }
    return 2;
}
