/* libFuzzer entry: any bytes at all into the decoder. */
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include "lj92.h"

long vp_live;
void *vp_malloc(size_t n) { void *p = malloc(n); if (p) vp_live++; return p; }
void *vp_calloc(size_t a, size_t b) { void *p = calloc(a, b); if (p) vp_live++; return p; }
void *vp_realloc(void *q, size_t n) { void *p = realloc(q, n); if (!q && p) vp_live++; return p; }
void vp_free(void *p) { if (p) vp_live--; free(p); }

int LLVMFuzzerTestOneInput(const uint8_t *d, size_t n)
{
    if (n < 1 || n > 4096) return 0;
    int mode = d[0];
    n--;
    uint8_t *data = malloc(n), *cp = malloc(n + 1);
    memcpy(data, d + 1, n);
    memcpy(cp, data, n);
    lj92 h = (lj92)8;
    int w, ht, bd, c;
    vp_live = 0;
    if (lj92_open(&h, data, (int)n, &w, &ht, &bd, &c) == LJ92_ERROR_NONE) {
        uint64_t px = (uint64_t)w * ht * c;
        if (px <= 1 << 14) {
            int wl = mode & 8 ? 3 : w * c, sl = mode & 16 ? 5 : 0, ln = mode & 1 ? 1 << (mode >> 5) * 2 : 0;
            if (wl < 1) wl = 1;
            uint64_t cells = px ? px + sl * ((px - 1) / wl) : 0;
            uint16_t *t = malloc(2 * cells), *lin = ln ? calloc(ln, 2) : NULL;
            lj92_decode(h, t, wl, sl, lin, ln);
            free(t);
            free(lin);
        }
        lj92_close(h);
    } else if (h)
        __builtin_trap();                      /* a failed open leaves no handle */
    if (vp_live) __builtin_trap();
    if (memcmp(data, cp, n)) __builtin_trap();
    free(data);
    free(cp);
    return 0;
}
