/* Several threads (or one, with several handles open) run calls of liblj92 on
 * shared data.  stdin: threads, slots, files, images, tables, then the calls
 * of each thread; stdout: for each call status, dimensions, checksum, tickets.
 * Tickets are relaxed, so that they order nothing. */
#include <pthread.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sched.h>
#include "lj92.h"

enum { OPEN, DECODE, CLOSE, ENCODE };
typedef struct { int n; void* p; int w, h, bd; } obj;
typedef struct { int op, slot, arg, a, b, tab, yields; int st, d[4]; uint64_t sum; uint32_t t0, t1; } call;
typedef struct { int n; call* c; } prog;
static obj *file, *image, *table;
static int threads, slots;
static prog* progs;
static pthread_barrier_t start;
static atomic_uint tick;

static void rd(void* p, size_t n) { if (n && fread(p, n, 1, stdin) != 1) exit(9); }
static int num(void) { int32_t v; rd(&v, 4); return v; }

static uint64_t fnv(uint64_t h, const void* p, size_t n) {
    const uint8_t* b = p;
    while (n--) { h ^= *b++; h *= 1099511628211ull; }
    return h;
}

static obj* objs(int size, int dims) {
    int n = num();
    obj* o = calloc(n + 1, sizeof *o);
    for (int i = 0; i < n; i++) {
        if (dims) { o[i].w = num(); o[i].h = num(); o[i].bd = num(); }
        o[i].n = num();
        o[i].p = malloc((size_t)o[i].n * size);
        rd(o[i].p, (size_t)o[i].n * size);
    }
    return o;
}

static void* run(void* arg) {
    prog* p = arg;
    lj92* h = calloc(slots, sizeof *h);
    int (*dim)[4] = calloc(slots, sizeof *dim);
    pthread_barrier_wait(&start);
    for (int i = 0; i < p->n; i++) {
        call* c = &p->c[i];
        for (int y = 0; y < c->yields; y++) sched_yield();
        c->t0 = atomic_fetch_add_explicit(&tick, 1, memory_order_relaxed);
        c->sum = 14695981039346656037ull;
        if (c->op == OPEN) {
            obj* f = &file[c->arg];
            int* d = dim[c->slot];
            h[c->slot] = NULL;
            c->st = lj92_open(&h[c->slot], f->p, f->n, &d[0], &d[1], &d[2], &d[3]);
            if (c->st == 0) memcpy(c->d, d, sizeof c->d);
        } else if (c->op == DECODE) {
            if (h[c->slot] == NULL) { c->st = 99; }
            else {
                int* d = dim[c->slot];
                size_t n = (size_t)d[0] * d[1] * d[3], wl = c->a;
                size_t rows = (n + wl - 1) / wl, cells = n + (rows - 1) * c->b;
                uint16_t* out = malloc(cells * 2);
                for (size_t k = 0; k < cells; k++) out[k] = 0xA5A5;
                obj* t = c->tab < 0 ? NULL : &table[c->tab];
                c->st = lj92_decode(h[c->slot], out, c->a, c->b, t ? t->p : NULL, t ? t->n : 0);
                if (c->st == 0) c->sum = fnv(c->sum, out, cells * 2);
                free(out);
            }
        } else if (c->op == CLOSE) {
            if (h[c->slot]) lj92_close(h[c->slot]);
            h[c->slot] = NULL;
        } else {
            obj* m = &image[c->arg];
            obj* t = c->tab < 0 ? NULL : &table[c->tab];
            uint8_t* e = NULL;
            int n = 0;
            c->st = lj92_encode(m->p, m->w, m->h, m->bd, m->w, 0, t ? t->p : NULL, t ? t->n : 0, &e, &n);
            if (c->st == 0) { c->d[0] = n; c->sum = fnv(c->sum, e, n); free(e); }
        }
        c->t1 = atomic_fetch_add_explicit(&tick, 1, memory_order_relaxed);
    }
    for (int i = 0; i < slots; i++) if (h[i]) lj92_close(h[i]);
    free(h);
    free(dim);
    return NULL;
}

int main(void) {
    threads = num();
    slots = num();
    file = objs(1, 0);
    image = objs(2, 1);
    table = objs(2, 0);
    progs = calloc(threads, sizeof *progs);
    for (int t = 0; t < threads; t++) {
        progs[t].n = num();
        progs[t].c = calloc(progs[t].n + 1, sizeof(call));
        for (int i = 0; i < progs[t].n; i++) {
            call* c = &progs[t].c[i];
            c->op = num(); c->slot = num(); c->arg = num(); c->a = num(); c->b = num(); c->tab = num(); c->yields = num();
        }
    }
    pthread_barrier_init(&start, NULL, threads);
    pthread_t* id = calloc(threads, sizeof *id);
    for (int t = 1; t < threads; t++) if (pthread_create(&id[t], NULL, run, &progs[t])) exit(9);
    run(&progs[0]);
    for (int t = 1; t < threads; t++) pthread_join(id[t], NULL);
    for (int t = 0; t < threads; t++)
        for (int i = 0; i < progs[t].n; i++) {
            call* c = &progs[t].c[i];
            printf("%d %d %d %d %d %d %d %llu %u %u\n", t, i, c->st, c->d[0], c->d[1], c->d[2], c->d[3],
                   (unsigned long long)c->sum, c->t0, c->t1);
        }
    return 0;
}
