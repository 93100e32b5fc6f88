"""Compile a flattened Yosys netlist (JSON) into a C simulator and load it.

The netlist comes from the repository's own nMigen (through RTLIL) or from its
shipped Verilog.  Every cell becomes one C statement, evaluated in dependency
order; values up to 64 bits are uint64_t, wider ones use _BitInt.
"""
import json, os, subprocess, sys, shutil

YOSYS = "/usr/bin/yosys"


class CompileError(Exception):
    pass


def run_yosys(script, cwd):
    p = os.path.join(cwd, "s.ys")
    with open(p, "w") as f:
        f.write(script)
    r = subprocess.run([YOSYS, "-q", "-s", p], cwd=cwd, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, universal_newlines=True, timeout=600)
    if r.returncode:
        raise CompileError("yosys: " + r.stdout[-2000:])


def netlist(src, kind, top, cwd):
    """kind: rtlil or verilog; returns the flattened module as JSON."""
    f = os.path.join(cwd, "d." + ("il" if kind == "rtlil" else "v"))
    with open(f, "w") as h:
        h.write(src)
    read = "read_rtlil d.il" if kind == "rtlil" else "read_verilog d.v"
    run_yosys("%s\nhierarchy -check -top %s\nproc -noopt\nflatten\nopt_expr\n"
              "opt_clean\nmemory_collect\nopt_clean\n"
              "write_json d.json\n" % (read, top), cwd)
    with open(os.path.join(cwd, "d.json")) as h:
        j = json.load(h)
    mods = [m for n, m in j["modules"].items() if "cells" in m]
    mod = j["modules"].get(top.lstrip("\\")) or mods[0]
    return mod


def pint(s, default=0):
    if isinstance(s, int):
        return s
    s = s.strip()
    return int(s.replace("x", "0").replace("z", "0"), 2) if s else default


class Gen:
    def __init__(self, mod):
        self.mod = mod
        self.drv = {}        # bit id -> (varname, offset)
        self.width = {}      # var -> width
        self.decl = []
        self.init = {}       # bit id -> 0/1
        self.reset = []

    @staticmethod
    def ctype(w):
        return "u64" if w <= 64 else "unsigned _BitInt(%d)" % w

    def const(self, v, w):
        if w <= 64:
            return "UINT64_C(0x%x)" % v
        parts = []
        i = 0
        t = self.ctype(w)
        while v:
            x = v & ((1 << 64) - 1)
            if x:
                parts.append("((%s)UINT64_C(0x%x)<<%d)" % (t, x, i))
            v >>= 64
            i += 64
        return "(" + ("|".join(parts) if parts else "(%s)0" % t) + ")"

    def mask(self, e, w):
        if w == 64:
            return "(%s)" % e
        if w < 64:
            return "((%s)&UINT64_C(0x%x))" % (e, (1 << w) - 1)
        return "((%s)(%s))" % (self.ctype(w), e)

    def sig(self, bits, deps=None):
        """C expression for a list of bits (LSB first)."""
        w = len(bits)
        if w == 0:
            return "UINT64_C(0)"
        chunks = []
        cval = 0
        i = 0
        while i < w:
            b = bits[i]
            if isinstance(b, str):
                if b == "1":
                    cval |= 1 << i
                i += 1
                continue
            if b not in self.drv:
                # undriven: constant from init or zero
                if self.init.get(b):
                    cval |= 1 << i
                i += 1
                continue
            v, o = self.drv[b]
            n = 1
            while i + n < w and not isinstance(bits[i + n], str) and \
                    self.drv.get(bits[i + n]) == (v, o + n):
                n += 1
            chunks.append((i, v, o, n))
            if deps is not None:
                deps.add(v)
            i += n
        t = self.ctype(w)
        out = []
        for (pos, v, o, n) in chunks:
            vw = self.width[v]
            e = v
            if o:
                e = "(%s>>%d)" % (e, o)
            if o + n < vw:
                if n <= 64:
                    e = "((u64)%s&UINT64_C(0x%x))" % (e, (1 << n) - 1)
                else:
                    e = "((%s)%s)" % (self.ctype(n), e)
            if w > 64:
                e = "(%s)%s" % (t, e)
            elif vw > 64:
                e = "(u64)%s" % e
            if pos:
                e = "((%s)<<%d)" % (e, pos)
            out.append(e)
        if cval or not out:
            out.append(self.const(cval, w))
        return "(" + "|".join(out) + ")"

    def ext(self, bits, w, signed, deps):
        """operand extended (or truncated) to width w."""
        n = len(bits)
        if n >= w:
            return self.sig(bits[:w], deps)
        if signed and n:
            return self.sig(list(bits) + [bits[-1]] * (w - n), deps)
        return self.sig(list(bits) + ["0"] * (w - n), deps)

    def sgn(self, bits, deps):
        """operand as a signed C value (<=64 bits -> int64_t)."""
        n = len(bits)
        if n <= 64:
            e = self.sig(bits, deps)
            return "((int64_t)((%s)<<%d)>>%d)" % (e, 64 - n, 64 - n)
        return "((signed _BitInt(%d))%s)" % (n, self.sig(bits, deps))

    def build(self):
        mod = self.mod
        for net in mod["netnames"].values():
            init = net.get("attributes", {}).get("init")
            if init is not None:
                v = pint(init)
                for i, b in enumerate(net["bits"]):
                    if not isinstance(b, str) and (v >> i) & 1:
                        self.init[b] = 1
        self.inputs = {}
        self.outputs = {}
        n = 0

        def newvar(bits, pre):
            nonlocal n
            v = "%s%d" % (pre, n)
            n += 1
            self.width[v] = len(bits)
            for i, b in enumerate(bits):
                if not isinstance(b, str):
                    self.drv[b] = (v, i)
            return v

        for name, p in mod["ports"].items():
            if p["direction"] == "input":
                v = newvar(p["bits"], "i")
                self.inputs[name] = (v, len(p["bits"]))
        comb, regs, mems = [], [], []
        for cname, c in mod["cells"].items():
            t = c["type"]
            if t in ("$dff", "$sdff", "$dffe", "$sdffe", "$adff", "$sdffce", "$adffe"):
                v = newvar(c["connections"]["Q"], "r")
                regs.append((v, c))
            elif t in ("$mem_v2", "$mem"):
                P = {k: pint(x) for k, x in c["parameters"].items() if k not in ("MEMID", "INIT")}
                W, RP = P["WIDTH"], P["RD_PORTS"]
                rv = []
                data = c["connections"]["RD_DATA"]
                for i in range(RP):
                    clk = (P["RD_CLK_ENABLE"] >> i) & 1
                    v = newvar(data[i * W:(i + 1) * W], "r" if clk else "w")
                    rv.append((v, clk))
                mems.append((cname, c, P, rv))
            elif t in ("$scopeinfo",):
                pass
            elif t in ("$assert", "$assume", "$cover", "$initstate"):
                raise CompileError("formal cell " + t)
            else:
                v = newvar(c["connections"]["Y"], "w")
                comb.append((v, c))
        # comb statements
        stmts = {}
        deps = {}
        for v, c in comb:
            d = set()
            e = self.cell(c, d)
            w = self.width[v]
            stmts[v] = "%s=%s;" % (v, self.mask(e, w))
            deps[v] = d
        seq = []
        post = []
        memdecl = []
        meminit = []
        for k, (cname, c, P, rv) in enumerate(mems):
            W, SZ, AB, OFF = P["WIDTH"], P["SIZE"], P["ABITS"], P.get("OFFSET", 0)
            t = self.ctype(W)
            memdecl.append("static %s m%d[%d];" % (t, k, SZ))
            init = c["parameters"]["INIT"]
            init = init if isinstance(init, str) else ""
            init = init.replace("x", "0").replace("z", "0")
            meminit.append("memset(m%d,0,sizeof m%d);" % (k, k))
            if init.strip("0") and len(init) > 1:
                iv = int(init, 2)
                for i in range(SZ):
                    x = (iv >> (i * W)) & ((1 << W) - 1)
                    if x:
                        meminit.append("m%d[%d]=%s;" % (k, i, self.const(x, W)))
            con = c["connections"]
            WP = P["WR_PORTS"]
            wr = []
            for i in range(WP):
                a = self.sig(con["WR_ADDR"][i * AB:(i + 1) * AB])
                dta = self.sig(con["WR_DATA"][i * W:(i + 1) * W])
                en = self.sig(con["WR_EN"][i * W:(i + 1) * W])
                wr.append((a, dta, en))
            for i, (v, clk) in enumerate(rv):
                abits = con["RD_ADDR"][i * AB:(i + 1) * AB]
                if not clk:
                    d = set()
                    a = self.sig(abits, d)
                    # the memory contents only change at a clock edge
                    stmts[v] = "{u64 a=%s-%d; %s=a<%d?m%d[a]:0;}" % (a, OFF, v, SZ, k)
                    deps[v] = d
                else:
                    a = self.sig(abits)
                    en = self.sig([con["RD_EN"][i]])
                    s = "if(%s){u64 a=%s-%d; n_%s=a<%d?m%d[a]:0;" % (en, a, OFF, v, SZ, k)
                    tm = P.get("RD_TRANSPARENCY_MASK", P.get("RD_TRANSPARENT", 0))
                    for j in range(WP):
                        if (tm >> (i * WP + j)) & 1:
                            s += "{u64 b=%s-%d; if(a==b){%s e=%s; n_%s=(n_%s&~e)|(%s&e);}}" % (
                                wr[j][0], OFF, t, wr[j][2], v, v, wr[j][1])
                    s += "}else n_%s=%s;" % (v, v)
                    seq.append(s)
                    self.decl.append((v, W))
                    post.append("%s=n_%s;" % (v, v))
                    self.reset.append("%s=0;" % v)
            for (a, dta, en) in wr:
                # sampled before registers change, applied after reads
                q = len(post)
                seq.append("u64 wa%d_%d=%s-%d; %s we%d_%d=%s; %s wd%d_%d=%s;" % (
                    k, q, a, OFF, t, k, q, en, t, k, q, dta))
                post.append("if(we%d_%d && wa%d_%d<%d) m%d[wa%d_%d]=(%s)((m%d[wa%d_%d]&~we%d_%d)|(wd%d_%d&we%d_%d));" % (
                    k, q, k, q, SZ, k, k, q, t, k, k, q, k, q, k, q, k, q))
        for v, c in regs:
            con, par = c["connections"], c["parameters"]
            w = self.width[v]
            t = c["type"]
            e = self.sig(con["D"])
            if t in ("$dffe", "$sdffe"):
                en = self.sig(con["EN"])
                if not pint(par["EN_POLARITY"]):
                    en = "!" + en
                e = "(%s?%s:%s)" % (en, e, v)
            if t in ("$sdff", "$sdffe"):
                r = self.sig(con["SRST"])
                if not pint(par["SRST_POLARITY"]):
                    r = "!" + r
                e = "(%s?%s:%s)" % (r, self.const(pint(par["SRST_VALUE"]), w), e)
            if t in ("$adff",):
                r = self.sig(con["ARST"])
                if not pint(par["ARST_POLARITY"]):
                    r = "!" + r
                e = "(%s?%s:%s)" % (r, self.const(pint(par["ARST_VALUE"]), w), e)
            if t in ("$sdffce", "$adffe"):
                raise CompileError("unsupported " + t)
            seq.append("n_%s=%s;" % (v, e))
            post.append("%s=n_%s;" % (v, v))
            self.decl.append((v, w))
            iv = sum(1 << i for i, b in enumerate(con["Q"])
                     if not isinstance(b, str) and self.init.get(b))
            self.reset.append("%s=%s;" % (v, self.const(iv, w)))
        order = self.sort(stmts, deps)
        # ports
        off = 0
        self.in_off, self.out_off = {}, {}
        inld, outst = [], []
        for name, (v, w) in self.inputs.items():
            self.in_off[name] = (off, w)
            words = (w + 63) // 64
            if words == 1:
                inld.append("%s=%s;" % (v, self.mask("io[%d]" % off, w)))
            else:
                e = "|".join("((%s)io[%d]<<%d)" % (self.ctype(w), off + i, 64 * i) for i in range(words))
                inld.append("%s=%s;" % (v, e))
            off += words
        self.nin = off
        for name, p in mod["ports"].items():
            if p["direction"] == "input":
                continue
            w = len(p["bits"])
            self.out_off[name] = (off, w)
            words = (w + 63) // 64
            for i in range(words):
                outst.append("io[%d]=(u64)(%s);" % (off + i, self.sig(p["bits"][64 * i:64 * i + 64])))
            off += words
        self.nio = off
        decl = []
        for v, w in self.width.items():
            decl.append("static %s %s;" % (self.ctype(w), v))
        for v, w in self.decl:
            decl.append("static %s n_%s;" % (self.ctype(w), v))
        body = []
        for grp in order:
            if len(grp) == 1:
                body.append(stmts[grp[0]])
            else:
                # false combinational loop at word level: iterate to a fixpoint
                body.append("for(int it=0;it<64;it++){int ch=0;")
                for v in grp:
                    body.append("{%s o=%s; %s if(o!=%s)ch=1;}" % (
                        self.ctype(self.width[v]), v, stmts[v], v))
                body.append("if(!ch)break;}")
        ioa = max(off, 1)
        parts = self.split("static void ev_body", body)
        c = ["#include <stdint.h>", "#include <string.h>", "typedef uint64_t u64;",
             "static u64 io[%d];" % ioa, "u64 *sim_io(void){return io;}"]
        c += memdecl + decl
        c += parts[0]
        c.append("void sim_eval(void){%s %s %s}" % (" ".join(inld), parts[1], " ".join(outst)))
        c.append("void sim_tick(void){\n%s\n%s\n}" % ("\n".join(seq), "\n".join(post)))
        c.append("void sim_run(u64 n){while(n--){sim_eval();sim_tick();}}")
        c.append("void sim_reset(void){\n%s\n%s\nmemset(io,0,sizeof io);}" % (
            "\n".join(meminit), "\n".join(self.reset)))
        self.ncells = len(comb)
        self.nregs = len(regs)
        return "\n".join(c)

    @staticmethod
    def split(name, body, n=400):
        fns, calls = [], []
        for i in range(0, len(body), n):
            pass
        fns.append("%s0(void){\n%s\n}" % (name, "\n".join(body)))
        calls.append("ev_body0();")
        return fns, " ".join(calls)

    def sort(self, stmts, deps):
        # Tarjan SCC, iterative; emits dependencies first
        index, low, onst, st, out = {}, {}, set(), [], []
        ctr = [0]
        for root in stmts:
            if root in index:
                continue
            work = [(root, iter([d for d in deps[root] if d in stmts]))]
            index[root] = low[root] = ctr[0]
            ctr[0] += 1
            st.append(root)
            onst.add(root)
            while work:
                v, it = work[-1]
                adv = False
                for w in it:
                    if w not in index:
                        index[w] = low[w] = ctr[0]
                        ctr[0] += 1
                        st.append(w)
                        onst.add(w)
                        work.append((w, iter([d for d in deps[w] if d in stmts])))
                        adv = True
                        break
                    elif w in onst:
                        low[v] = min(low[v], index[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[v])
                if low[v] == index[v]:
                    grp = []
                    while True:
                        w = st.pop()
                        onst.discard(w)
                        grp.append(w)
                        if w == v:
                            break
                    if len(grp) == 1 and v in deps[v]:
                        grp = [v, v]
                    out.append(grp)
        return out

    def cell(self, c, d):
        t, con, par = c["type"], c["connections"], c["parameters"]
        A, B, Y = con.get("A"), con.get("B"), con.get("Y")
        w = len(Y)
        sa = pint(par.get("A_SIGNED", 0))
        sb = pint(par.get("B_SIGNED", 0))
        both = sa and sb
        if t in ("$not", "$pos", "$neg"):
            a = self.ext(A, w, sa, d)
            return {"$not": "~%s", "$pos": "%s", "$neg": "-%s"}[t] % a
        if t in ("$and", "$or", "$xor", "$xnor", "$add", "$sub", "$mul"):
            a, b = self.ext(A, w, both, d), self.ext(B, w, both, d)
            op = {"$and": "%s&%s", "$or": "%s|%s", "$xor": "%s^%s", "$xnor": "~(%s^%s)",
                  "$add": "%s+%s", "$sub": "%s-%s", "$mul": "%s*%s"}[t]
            return op % (a, b)
        if t in ("$eq", "$ne", "$eqx", "$nex", "$lt", "$le", "$gt", "$ge"):
            m = max(len(A), len(B))
            op = {"$eq": "==", "$eqx": "==", "$ne": "!=", "$nex": "!=", "$lt": "<",
                  "$le": "<=", "$gt": ">", "$ge": ">="}[t]
            if both and t in ("$lt", "$le", "$gt", "$ge"):
                ea = list(A) + [A[-1]] * (m - len(A))
                eb = list(B) + [B[-1]] * (m - len(B))
                return "(u64)(%s%s%s)" % (self.sgn(ea, d), op, self.sgn(eb, d))
            return "(u64)(%s%s%s)" % (self.ext(A, m, both, d), op, self.ext(B, m, both, d))
        if t in ("$logic_not", "$logic_and", "$logic_or"):
            a = "(%s!=0)" % self.sig(A, d)
            if t == "$logic_not":
                return "(u64)!%s" % a
            b = "(%s!=0)" % self.sig(B, d)
            return "(u64)(%s%s%s)" % (a, "&&" if t == "$logic_and" else "||", b)
        if t in ("$reduce_or", "$reduce_bool"):
            return "(u64)(%s!=0)" % self.sig(A, d)
        if t == "$reduce_and":
            return "(u64)(%s==%s)" % (self.sig(A, d), self.const((1 << len(A)) - 1, len(A)))
        if t in ("$reduce_xor", "$reduce_xnor"):
            if len(A) > 64:
                raise CompileError("wide reduce_xor")
            e = "__builtin_parityll(%s)" % self.sig(A, d)
            return "(u64)%s%s" % ("!" if t == "$reduce_xnor" else "", e)
        if t == "$mux":
            return "(%s?%s:%s)" % (self.sig(con["S"], d), self.sig(B, d), self.sig(A, d))
        if t == "$pmux":
            e = self.sig(A, d)
            n = len(con["S"])
            for i in reversed(range(n)):
                e = "(%s?%s:%s)" % (self.sig([con["S"][i]], d), self.sig(B[i * w:(i + 1) * w], d), e)
            return e
        if t in ("$shl", "$sshl", "$shr", "$sshr"):
            m = max(len(A), w)
            a = self.ext(A, m, sa, d)
            b = self.sig(B, d)
            if len(B) > 64:
                raise CompileError("wide shift amount")
            if t == "$sshr" and sa:
                ea = list(A) + [A[-1]] * (m - len(A))
                s = self.sgn(ea, d)
                return "({u64 b=%s; %s>>(b>=%d?%d:b);})" % (b, s, m, m - 1)
            op = "<<" if t in ("$shl", "$sshl") else ">>"
            return "({u64 b=%s; b>=%d?(%s)0:(%s)(%s%sb);})" % (b, m, self.ctype(m), self.ctype(m), a, op)
        if t in ("$shift", "$shiftx"):
            # shift right by B; B signed means a negative amount shifts left
            m = max(len(A), w)
            a = self.ext(A, m, sa and t == "$shift", d)
            if sb and len(B):
                b = self.sgn(B, d)
                ct = self.ctype(m)
                return ("({int64_t b=%s; b>=%d||b<=-%d?(%s)0:b>=0?(%s)(%s>>b):(%s)(%s<<-b);})" %
                        (b, m, m, ct, ct, a, ct, a))
            return "({u64 b=%s; b>=%d?(%s)0:(%s)(%s>>b);})" % (self.sig(B, d), m, self.ctype(m), self.ctype(m), a)
        if t in ("$div", "$mod", "$divfloor", "$modfloor"):
            if both:
                raise CompileError("signed division")
            a, b = self.ext(A, max(len(A), len(B), w), 0, d), self.ext(B, max(len(A), len(B), w), 0, d)
            return "({__auto_type b=%s; b?(%s%sb):0;})" % (b, a, "/" if "div" in t else "%")
        if t == "$slice":
            o = pint(par["OFFSET"])
            return self.sig(A[o:o + w], d)
        if t == "$concat":
            return self.sig(list(A) + list(B), d)
        raise CompileError("unsupported cell " + t)


class Sim:
    """A compiled design: named ports over a shared word array."""

    def __init__(self, mod, cwd, opt="-O1"):
        import cffi
        g = Gen(mod)
        src = g.build()
        cf = os.path.join(cwd, "sim.c")
        so = os.path.join(cwd, "sim.so")
        with open(cf, "w") as f:
            f.write(src)
        r = subprocess.run(["clang", opt, "-fwrapv", "-w", "-shared", "-fPIC", "-o", so, cf],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=600)
        if r.returncode:
            raise CompileError("clang: " + r.stdout[-3000:])
        ffi = cffi.FFI()
        ffi.cdef("uint64_t *sim_io(void); void sim_eval(void); void sim_tick(void); void sim_reset(void); void sim_run(uint64_t n);")
        self.ffi = ffi
        self.lib = ffi.dlopen(so)
        self.io = self.lib.sim_io()
        self.inputs, self.outputs = g.in_off, g.out_off
        self.ncells, self.nregs = g.ncells, g.nregs
        self.cycles = 0
        self.reset()

    def reset(self):
        self.lib.sim_reset()

    def idx(self, name):
        if name in self.inputs:
            return self.inputs[name][0]
        return self.outputs[name][0]

    def set(self, name, v):
        o, w = self.inputs[name]
        if w <= 64:
            self.io[o] = v & ((1 << w) - 1)
        else:
            for i in range((w + 63) // 64):
                self.io[o + i] = (v >> (64 * i)) & ((1 << 64) - 1)

    def get(self, name):
        o, w = self.outputs[name]
        if w <= 64:
            return self.io[o]
        v = 0
        for i in range((w + 63) // 64):
            v |= self.io[o + i] << (64 * i)
        return v

    def eval(self):
        self.lib.sim_eval()

    def tick(self):
        self.lib.sim_tick()
        self.cycles += 1

    def run(self, n):
        """n cycles with the inputs as they are"""
        self.lib.sim_run(n)
        self.cycles += n
