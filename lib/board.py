"""The board software of software/src in a process of its own, its devices here."""
import os, re, shutil, struct, subprocess, tempfile, atexit
from ljpeg import cc, BuildError, REPO, HERE

FILES = ("core_axi_lite.cpp", "mmap_handler.cpp", "tools.cpp", "xilinx_dma.cpp")
SAN = ["-std=c++11", "-g", "-O1", "-fno-omit-frame-pointer", "-w", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-sanitize=alignment"]
TRACE = ["-fsanitize-coverage=edge,trace-pc-guard,trace-loads,trace-stores"]
WRAP = ["-Wl,--wrap=%s" % n for n in ("open", "mmap", "usleep", "exit")]
CORE, DMA = 0x83C00000, 0x40400000
SRC, DST = 0x10000000, 0x12000000


class Crash(Exception):
    pass


class Exited(Exception):
    pass


class Board:
    """read(addr) and write(addr, value) are called for each device access, sleep() for each usleep"""

    def __init__(self, tool=False, input_length=None, extra=()):
        self.d = tempfile.mkdtemp(prefix="sw")
        atexit.register(shutil.rmtree, self.d, True)
        src = os.path.join(self.d, "src")
        shutil.copytree(os.path.join(REPO, "software", "src"), src)
        if input_length:
            p = os.path.join(src, "config.h")
            t, n = re.subn(r"(#define\s+INPUT_LENGTH\s+)\(?\d+\)?", r"\g<1>(%d)" % input_length, open(p).read())
            if n != 1:
                raise BuildError("config.h has no INPUT_LENGTH")
            with open(p, "w") as f:
                f.write(t)
        cmds, objs = [], []
        for f in FILES + (("xilinx_test.cpp",) if tool else ()):
            o = os.path.join(self.d, f + ".o")
            cmds.append(["clang++-18"] + SAN + TRACE + list(extra) +
                        ["-c", os.path.join(src, f), "-o", o])
            objs.append(o)
        o = os.path.join(self.d, "drv.o")
        cmds.append(["clang++-18"] + SAN + ["-I" + src] + (["-DWITH_TOOL"] if tool else []) +
                    ["-c", os.path.join(HERE, "c", "sw_drv.cpp"), "-o", o])
        ps = [(c, subprocess.Popen(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)) for c in cmds]
        for c, p in ps:
            out = p.communicate()[0]
            if p.returncode:
                raise BuildError("%s: %s" % (" ".join(c), out.decode()[-1500:]))
        if tool:
            cc(["objcopy", "--redefine-sym", "main=tool_main", os.path.join(self.d, "xilinx_test.cpp.o")])
        self.exe = os.path.join(self.d, "drv")
        cc(["clang++-18"] + SAN + WRAP + objs + [o, "-o", self.exe])
        self.mem = os.path.join(self.d, "mem")
        with open(self.mem, "wb") as f:
            f.truncate(1 << 32)
        self.p = None
        self.read = self.write = None
        self.sleep = lambda us: None
        self.maps = []
        self.odd = []
        self.log = os.path.join(self.d, "out")
        self.accesses = 0

    def start(self):
        self.stop()
        r, w = os.pipe()
        os.set_inheritable(w, True)
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:handle_segv=1", UBSAN_OPTIONS="print_stacktrace=1")
        self.p = subprocess.Popen([self.exe, self.mem, str(w), "%x" % CORE, "%x" % DMA], stdin=subprocess.PIPE,
                                  stdout=open(self.log, "wb"), stderr=open(self.log + ".err", "wb"), pass_fds=(w,), env=env)
        os.close(w)
        self.f = os.fdopen(r, "r")
        self.maps, self.odd = [], []

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.f.close()
            self.p.stdin.close()
            self.p = None

    def line(self):
        l = self.f.readline()
        if not l:
            if self.p.wait() == -27:
                self.stop()
                raise Crash("no end after 120 seconds of processor time")
            t = open(self.log + ".err", errors="replace").read()
            lines = [x.strip() for x in t.splitlines() if "ERROR" in x or "runtime error" in x or " #" in x]
            self.stop()
            raise Crash(" | ".join(lines[:5])[:900] or "the process died")
        return l[:-1]

    def send(self, t):
        self.p.stdin.write((t + "\n").encode())
        self.p.stdin.flush()

    def call(self, *a):
        """the answer: an int, or a list of lines for a get_... that gives strings"""
        if self.p is None:
            self.start()
        self.send(" ".join(x if isinstance(x, str) else "%x" % x for x in a))
        many = a[0] in ("get_ssss", "get_debug", "s2mm_status", "mm2s_status")
        first = self.accesses
        while True:
            if self.accesses - first > 300000:
                self.stop()
                raise Crash("no end after 300000 device accesses")
            l = self.line()
            k, _, rest = l.partition(" ")
            if k == "R":
                self.accesses += 1
                self.send("%x" % self.read(int(rest, 16)))
            elif k == "W":
                self.accesses += 1
                x, y = rest.split()
                self.write(int(x, 16), int(y, 16))
                self.send("")
            elif k == "S":
                self.sleep(int(rest, 16))
                self.send("")
            elif k == "M":
                x, y = rest.split()
                self.maps.append((int(x, 16), int(y, 16)))
                self.send("")
            elif k == "X":
                self.odd.append(rest)
                self.send("")
            elif k == "Q":
                self.p.wait()
                self.stop()
                raise Exited(int(rest))
            elif k == "=":
                return [self.line() for _ in range(int(rest))] if many else int(rest, 16)
            else:
                raise Crash("unexpected answer %r" % l)

    def output(self):
        return open(self.log, errors="replace").read()
