#include <sys/time.h>
/* Runs the board library of software/src on command, with the devices behind
 * a pipe.  The library is compiled with -fsanitize-coverage=trace-loads,
 * trace-stores, which calls us before each access; accesses to the pages that
 * stand for a device become requests on stdout.  RAM is a sparse file. */
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <vector>
#include <iostream>
#include <fcntl.h>
#include <stdint.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

#include "core_axi_lite.h"
#include "xilinx_dma.h"

struct Dev { uint32_t base, len; uint8_t *p; };
static std::vector<Dev> devs;
static uint32_t dev_base[8];
static int ndev, memfd = -1, nopen;
static FILE *to, *from;
static uint32_t *pend;
static uint32_t pend_base;

static void say(const char *f, ...)
{
    va_list a;
    va_start(a, f);
    vfprintf(to, f, a);
    va_end(a);
    fputc('\n', to);
    fflush(to);
}
static std::string line()
{
    std::string s;
    int c;
    while ((c = fgetc(from)) != EOF && c != '\n') s += c;
    if (c == EOF) _exit(7);
    return s;
}
static Dev *dev(void *a)
{
    for (auto &d : devs)
        if ((uint8_t *)a >= d.p && (uint8_t *)a < d.p + d.len) return &d;
    return nullptr;
}
static void flush()
{
    if (!pend) return;
    uint32_t *p = pend;
    pend = nullptr;
    say("W %x %x", pend_base, *p);
    line();
}
extern "C" {
/* the runtime's defaults are weak */
void __sanitizer_cov_load4(uint32_t *a)
{
    Dev *d = dev(a);
    if (!d) return;
    flush();
    uint32_t phys = d->base + (uint32_t)((uint8_t *)a - d->p);
    say("R %x", phys);
    *a = strtoul(line().c_str(), 0, 16);
}
void __sanitizer_cov_store4(uint32_t *a)
{
    Dev *d = dev(a);
    if (!d) return;
    flush();
    pend = a;
    pend_base = d->base + (uint32_t)((uint8_t *)a - d->p);
}
static void odd(void *a, int n, const char *what)
{
    Dev *d = dev(a);
    if (!d) return;
    flush();
    say("X %s of %d bytes at %x", what, n, d->base + (uint32_t)((uint8_t *)a - d->p));
    line();
}
void __sanitizer_cov_load1(uint8_t *a) { odd(a, 1, "read"); }
void __sanitizer_cov_load2(uint16_t *a) { odd(a, 2, "read"); }
void __sanitizer_cov_load8(uint64_t *a) { odd(a, 8, "read"); }
void __sanitizer_cov_load16(__int128 *a) { odd(a, 16, "read"); }
void __sanitizer_cov_store1(uint8_t *a) { odd(a, 1, "write"); }
void __sanitizer_cov_store2(uint16_t *a) { odd(a, 2, "write"); }
void __sanitizer_cov_store8(uint64_t *a) { odd(a, 8, "write"); }
void __sanitizer_cov_store16(__int128 *a) { odd(a, 16, "write"); }
void __sanitizer_cov_trace_pc_guard(uint32_t *) {}
void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {}

int __real_open(const char *, int, ...);
void *__real_mmap(void *, size_t, int, int, int, off_t);
int __real_close(int);
int __wrap_open(const char *f, int fl, ...)
{
    if (!strcmp(f, "/dev/mem")) {
        if ((fl & O_ACCMODE) != O_RDWR || !(fl & O_SYNC)) say("X /dev/mem opened with flags %x", fl), line();
        nopen++;
        return dup(memfd);
    }
    return __real_open(f, fl, 0600);
}
void *__wrap_mmap(void *a, size_t n, int pr, int fl, int fd, off_t o)
{
    uint32_t b = (uint32_t)o;
    if (b & 4095) { say("X mapping of the odd address %x", b); line(); }
    if (!(fl & MAP_SHARED) || pr != (PROT_READ | PROT_WRITE)) { say("X mapping with flags %x, protection %x", fl, pr); line(); }
    for (int i = 0; i < ndev; i++)
        if (dev_base[i] == b) {
            uint8_t *p = (uint8_t *)__real_mmap(a, n, pr, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            devs.push_back({b, (uint32_t)((n + 4095) & ~4095ul), p});
            return p;
        }
    say("M %x %x", b, (unsigned)n);
    line();
    return __real_mmap(a, n, pr, fl, fd, (off_t)b);
}
int __wrap_usleep(useconds_t n)
{
    flush();
    say("S %x", n);
    line();
    return 0;
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int n)
{
    flush();
    std::cout.flush();
    fflush(stdout);
    say("Q %d", n);
    _exit(0);
}
}

#ifdef WITH_TOOL
extern "C" int tool_main(int, char **);
#endif

static void lines(const std::vector<std::string> &v)
{
    flush();
    say("= %zu", v.size());
    for (auto &s : v) say("%s", s.c_str());
}

/* drv memfile out base... : commands on stdin, answers on fd 3 */
int main(int argc, char **argv)
{
    from = stdin;
    to = fdopen(atoi(argv[2]), "w");
    memfd = __real_open(argv[1], O_RDWR);
    for (int i = 3; i < argc && ndev < 8; i++) dev_base[ndev++] = strtoul(argv[i], 0, 16);
    CoreAXILite *core = nullptr;
    XilinxDMA *dma = nullptr;
    for (;;) {
        std::string s = line();
        /* a call may take two minutes of processor time */
        struct itimerval it = {{0, 0}, {120, 0}};
        setitimer(ITIMER_PROF, &it, NULL);
        char c[64] = "", a1[512] = "", a2[512] = "";
        sscanf(s.c_str(), "%63s %511s %511s", c, a1, a2);
        std::string o = c;
        unsigned x = strtoul(a1, 0, 16), y = strtoul(a2, 0, 16);
        long ret = 0;
        if (o == "core") { delete core; core = new CoreAXILite(x, (uint8_t)y); }
        else if (o == "dma") { delete dma; dma = new XilinxDMA(x); }
        else if (o == "get_height") ret = core->get_height();
        else if (o == "get_width") ret = core->get_width();
        else if (o == "get_allowed_cycles") ret = core->get_allowed_cycles();
        else if (o == "get_ssss") { lines(core->get_ssss()); continue; }
        else if (o == "get_debug") { lines(core->get_debug()); continue; }
        else if (o == "set_height") core->set_height(x);
        else if (o == "set_width") core->set_width(x);
        else if (o == "set_allowed_cycles") core->set_allowed_cycles(x);
        else if (o == "s2mm_status") { lines(dma->dma_s2mm_status()); continue; }
        else if (o == "mm2s_status") { lines(dma->dma_mm2s_status()); continue; }
        else if (o == "mm2s_sync") dma->dma_mm2s_sync();
        else if (o == "s2mm_sync") dma->dma_s2mm_sync();
        else if (o == "reset_dma") dma->reset_dma();
        else if (o == "halt_dma") dma->halt_dma();
        else if (o == "set_src_dist") dma->set_dma_src_dist(x, y);
        else if (o == "start_dma") dma->start_dma();
        else if (o == "set_len") dma->set_dma_transfer_len(x, y);
#ifdef WITH_TOOL
        else if (o == "main") {
            char t[] = "tool";
            char *v[] = {t, a1, a2, nullptr};
            ret = tool_main(3, v);
            std::cout.flush();
            fflush(stdout);
        }
#endif
        else if (o == "quit") _exit(0);
        else { say("? %s", o.c_str()); continue; }
        flush();
        say("= %lx", ret);
    }
}
