#include <sys/time.h>
/* Runs encode and decode requests against the library in exactly sized heap
 * buffers; meant to be built with sanitizers.  The library's allocations go
 * through vp_* so that they can be counted and made to fail. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "lj92.h"

long vp_live, vp_calls, vp_fail_at = -1, vp_failed;

static int failing(void)
{
    vp_calls++;
    if (vp_fail_at > 0 && vp_calls == vp_fail_at) { vp_failed = 1; return 1; }
    return 0;
}
/* fresh memory holds noise, as it may */
void *vp_malloc(size_t n)
{
    if (failing()) return NULL;
    unsigned char *p = malloc(n);
    for (size_t i = 0; p && i < n; i++) p[i] = (unsigned char)(i * 37 + 0xA7);
    if (p) vp_live++;
    return p;
}
void *vp_calloc(size_t a, size_t b)
{
    if (failing()) return NULL;
    void *p = calloc(a, b);
    if (p) vp_live++;
    return p;
}
void *vp_realloc(void *q, size_t n)
{
    if (failing()) return NULL;
    void *p = realloc(q, n);
    if (!q && p) vp_live++;
    return p;
}
void vp_free(void *p)
{
    if (p) vp_live--;
    free(p);
}

static uint32_t r32(void)
{
    uint32_t v;
    if (fread(&v, 4, 1, stdin) != 1) exit(0);
    return v;
}
static void w32(uint32_t v) { fwrite(&v, 4, 1, stdout); }
static void *rd(size_t n)
{
    void *p = malloc(n ? n : 1);
    /* no slack: an access one past the end has to show */
    if (!n) { free(p); p = malloc(0); }
    if (n && fread(p, n, 1, stdin) != 1) exit(0);
    return p;
}

int main(void)
{
    static char ob[1 << 16];
    setvbuf(stdout, ob, _IOFBF, sizeof ob);
    for (;;) {
        uint32_t op = r32();
        /* a request may take a minute of processor time */
        struct itimerval it = {{0, 0}, {60, 0}};
        setitimer(ITIMER_PROF, &it, NULL);
        vp_calls = vp_live = vp_failed = 0;
        if (op == 'E') {
            int w = r32(), h = r32(), bd = r32(), rl = r32(), sl = r32(), dn = r32();
            vp_fail_at = (int32_t)r32();
            uint32_t n = r32();
            uint16_t *img = rd(2 * (size_t)n), *del = dn ? rd(2 * (size_t)dn) : NULL;
            uint16_t *cp = malloc(2 * (size_t)n + 1);
            memcpy(cp, img, 2 * (size_t)n);
            uint8_t *enc = NULL;
            int len = -12345;
            int ret = lj92_encode(img, w, h, bd, rl, sl, del, dn, &enc, &len);
            w32(ret);
            w32(vp_failed);
            w32(vp_calls);
            w32(memcmp(cp, img, 2 * (size_t)n) != 0);
            if (ret == LJ92_ERROR_NONE) {
                w32(vp_live - 1);
                w32(len);
                if (len < 0) len = 0;
                fwrite(enc, len, 1, stdout);   /* reads all of it */
                free(enc);
            } else {
                w32(vp_live);
                w32(0);
            }
            free(img); free(del); free(cp);
        } else if (op == 'D') {
            int wl = (int32_t)r32(), sl = r32(), ln = r32();
            vp_fail_at = (int32_t)r32();
            uint32_t limit = r32(), times = r32(), n = r32();
            uint8_t *data = rd(n);
            uint16_t *lin = ln ? rd(2 * (size_t)ln) : NULL;
            uint8_t *cp = malloc(n + 1);
            memcpy(cp, data, n);
            lj92 h = (lj92)8;
            int w = -1, ht = -1, bd = -1, c = -1;
            int ret = lj92_open(&h, data, n, &w, &ht, &bd, &c);
            w32(ret);
            w32(w); w32(ht); w32(bd); w32(c);
            int dret = 1;
            uint64_t px = 0, cells = 0;
            uint16_t *t = NULL;
            if (ret == LJ92_ERROR_NONE) {
                px = (uint64_t)w * ht * c;
                int l = wl > 0 ? wl : wl == 0 ? w * c : 1 << 30;
                if (px <= limit) {
                    cells = px ? px + (uint64_t)sl * ((px - 1) / l) : 0;
                    t = malloc(2 * cells);
                    for (uint32_t k = 0; k < times; k++) {
                        for (uint64_t i = 0; i < cells; i++) t[i] = 0xA5A5;
                        dret = lj92_decode(h, t, l, sl, lin, ln);
                    }
                }
                lj92_close(h);
            } else if (h != NULL)
                dret = 99;                     /* a failed open leaves no handle */
            w32(dret);
            w32(vp_failed);
            w32(vp_calls);
            w32(vp_live);
            w32(memcmp(cp, data, n) != 0);
            w32(cells);
            fwrite(t, 2, cells, stdout);
            free(t); free(data); free(lin); free(cp);
        } else
            exit(3);
        fflush(stdout);
    }
}
