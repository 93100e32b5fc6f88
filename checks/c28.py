"""The Verilog that generate_verilog.py writes, in lock-step with the design it comes from."""
import os, random, runpy, shutil, subprocess, sys, tempfile
import hw, rtlc, designs, frames

RULE = ("generate_verilog.py runs in a copy of the tree; a case is a random run of 500 to 4000 cycles in which the Verilog of one module and the "
        "design its script builds get the same inputs (valid and busy rates, resets and register addresses drawn), and every output is "
        "compared in every cycle. Every signal of the module's interface has to be a port, and every register of the Verilog has to be "
        "clocked by a clock port. Distinct by module and run.")
ASSUMPTIONS = ["modules whose interface has lists of signals of one name are only generated and read, their ports get numbers",
               "yosys is the reader of the Verilog"]
REQUIRED = {"modules": 30, "cycles_compared": 300000, "ports": 350, "registers": 1500, "outputs_changed": 20000, "generated": 42}


def axil(p, s=""):
    ri, ro, wi, wo = [p + "_" + x + s for x in ("ri", "ro", "wi", "wo")]
    return ([ri + "." + n for n in ("araddr", "arvalid", "rready")] + [wi + "." + n for n in ("awaddr", "awvalid", "wdata", "wstrb", "wvalid", "bready")],
            [ro + "." + n for n in ("arready", "rdata", "rresp", "rvalid")] + [wo + "." + n for n in ("awready", "wready", "bresp", "bvalid")])


def two(a, b):
    return a.split(), b.split()


CONV = two("latch_output enc_in enc_in_ctr in_end valid_in", "enc_out enc_out_ctr out_end valid_out close_full")
FLOW = two("data_in valid_in i_busy", "data_out valid_out o_busy")
FLOWE = two("data_in valid_in i_busy end_in", "data_out valid_out o_busy end_out")
AXIS = two("s_tvalid s_tdata m_tready", "s_tready m_tvalid m_tdata m_tlast")
CORE = "integration_3.integration_2.integration_1.core_axi_lite.s_axi"
# module: inputs, outputs, clocks and resets
T = {
    "beta_integration": two("pixel_in1 pixel_in2 valid_in busy_in", "valid_out end_out nready data_out") + ("full",),
    "micro_integration": two("pixel_in valid_in busy_in", "valid_out end_out nready data_out") + ("full", CORE),
    "beta_integration_axistream": AXIS + ("full",),
    "micro_integration_axistream": AXIS + ("full", "top." + CORE),
    "beta_integration_fifo_axistream": AXIS + ("full",),
    "beta_integration_fifo_lvds": two("s_tvalid s_tdata m_tready", "s_tready m_tvalid m_tdata") + ("full",),
    "integration_3_axi_stream": AXIS + ("full core",),
    "markers": two("data_in valid_in i_busy end_in force_end_in", "data_out valid_out o_busy end_out") + ("sync",),
    "fix_0xff": (FLOWE[0], FLOWE[1] + ["data_out_ctr"], "sync"),
    "fix_0xff2": (FLOWE[0] + ["data_in_ctr"], FLOWE[1], "sync"),
    "b16_b40": FLOW + ("full core",),
    "b16_b64": FLOWE + ("sync",),
    "b64_b32": FLOW + ("sync",),
    "b64_b32_2": FLOW + ("full",),
    "converter": two("close_full enc_out enc_out_ctr out_end valid_out", "latch_output enc_in enc_in_ctr in_end valid_in") + ("sync",),
    "converter_fifo": CONV + ("sync",),
    "lj92_pipeline_fifo": CONV + ("sync",),
    "vbits_to_cbits": two("enc_in enc_in_ctr in_end valid_in busy_in", "data_out valid_out end_out latch_input") + ("sync",),
    "force_end": two("valid_in allowed_cycles", "fend") + ("sync",),
    "signals": two("height width new_input", "end_of_frame new_row") + ("sync",),
    "auto_reset": two("end_in hs1_in hs2_in", "reset_out") + ("sync",),
    "delayer": two("in_sig", "out_sig") + ("sync",),
    "reverser": two("data_in", "data_out") + ("",),
    "register_file": two("", "height width allowed_cycles") + ("",),
    "core_axi_lite": two("debug_en rp_data", "height width allowed_cycles wp_addr wp_data wp_en rp_addr") + ("full core", "s_axi"),
    "axi_lite": (axil("s_axi")[0] + ["m" + n[1:] for n in axil("s_axi")[1]] + ["s_axi_ri.arid", "s_axi_wi.awid"], [], "sync"),
    "dma_axi_lite": two("in1 in2 in3 in4 in5 in6 in7 in8 in9", "read_addr write_addr start") + ("sync", "s_axi_"),
    "axihp_fifo": two("data_in end_in valid_in read", "data_out end_out valid_out writable readable writable16 readable16") + ("sync",),
    "address_generator": two("address_latch starting_address", "address_o address_valid") + ("sync",),
    "axihp_reader": two("enable data_full addr_in addr_empty m_axi_ri.arready m_axi_ri.rdata m_axi_ri.rlast m_axi_ri.rresp m_axi_ri.rvalid",
                        "inactive data_enable data_out addr_enable reader_error reader_active m_axi_ro.araddr m_axi_ro.arburst m_axi_ro.arlen "
                        "m_axi_ro.arsize m_axi_ro.arprot m_axi_ro.arvalid m_axi_ro.rready m_axi_ro.arid") + ("sync",),
    "axihp_writer": two("enable data_in data_empty addr_in addr_empty write_strobe m_axi_wi.awready m_axi_wi.wready m_axi_wi.bresp m_axi_wi.bvalid",
                        "inactive data_enable addr_enable writer_error writer_active writer_unconf m_axi_wo.awaddr m_axi_wo.awburst m_axi_wo.awlen "
                        "m_axi_wo.awsize m_axi_wo.awprot m_axi_wo.awvalid m_axi_wo.awid m_axi_wo.wid m_axi_wo.wdata m_axi_wo.wstrb m_axi_wo.wlast "
                        "m_axi_wo.wvalid m_axi_wo.bready") + ("sync",),
}
REST = ["beta_integration_fullaxi", "debug_module", "difference", "encode", "integration_1", "integration_2", "integration_3", "merge",
        "normalize", "predictor_p1_c4_pix1_2", "predictor_p1_c4_px4"]
BIG = ("beta", "micro", "integration_3")


def jobs(tier, seed):
    q = tier == "quick"
    js = [{"name": n, "fn": "one", "m": n, "n": (20 if n.startswith(BIG) else 30) if q else 120, "weight": 20 if n.startswith(BIG) else 2} for n in T]
    js += [{"name": "read-" + n, "fn": "rest", "only": n, "all": False, "n": 1, "weight": 10} for n in REST]
    if not q:
        js.append({"name": "all", "fn": "rest", "all": True, "n": 1, "weight": 60})
    return js


class Bad(Exception):
    pass


def generate(names):
    """verilog_src after generate_verilog.py, other modules than these left out"""
    d = tempfile.mkdtemp(prefix="gv")
    try:
        os.mkdir(os.path.join(d, "verilog_src"))
        os.mkdir(os.path.join(d, "bin"))
        shutil.copytree(os.path.join(hw.REPO, "migen_src"), os.path.join(d, "migen_src"))
        shutil.copy(os.path.join(hw.REPO, "generate_verilog.py"), d)
        for n in ("python", "python3"):
            p = os.path.join(d, "bin", n)
            with open(p, "w") as f:
                f.write("#!/bin/sh\ncase \"$1\" in %s) exec %s \"$@\";; esac\n" % ("|".join("*/%s.py" % n for n in names), sys.executable))
            os.chmod(p, 0o755)
        env = dict(os.environ, PATH=os.path.join(d, "bin") + ":" + os.environ["PATH"], PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "generate_verilog.py"], cwd=d, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           universal_newlines=True, timeout=600)
        if r.returncode:
            raise Bad("generate_verilog.py: " + r.stdout[-500:])
        out = {}
        for n in os.listdir(os.path.join(d, "verilog_src")):
            with open(os.path.join(d, "verilog_src", n)) as f:
                out[n[:-2]] = f.read()
        for n in names:
            if "module top" not in out.get(n, ""):
                raise Bad("no Verilog for %s: %s" % (n, r.stdout[-500:]))
        if sorted(out) != sorted(names):
            raise Bad("files %s are left" % sorted(set(out) - set(names)))
        return out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def captured(mod):
    """the design the script of that module builds"""
    import nmigen.cli
    got = []
    orig = nmigen.cli.main
    nmigen.cli.main = lambda d, *a, **k: got.append(d)
    try:
        runpy.run_path(os.path.join(hw.SRC, mod + ".py"), run_name="__main__")
    finally:
        nmigen.cli.main = orig
    return got[0]


def attr(d, path):
    for n in path.split("."):
        d = getattr(d, n)
    return d


def clocks(mod):
    """(registers, problem): each clock of the netlist has to come from a clock port"""
    bits = {}
    for n, p in mod["ports"].items():
        if p["direction"] == "input" and n in ("clk", "full_clk", "m_axi_aclk"):
            for b in p["bits"]:
                bits[b] = n
    regs = 0
    for n, c in mod["cells"].items():
        for k in ("CLK", "C", "CLK_A", "RD_CLK", "WR_CLK"):
            for b in c["connections"].get(k, ()) if c["port_directions"].get(k) == "input" else ():
                en = c["parameters"].get(k + "_ENABLE")
                if k.startswith(("RD_", "WR_")) and en is not None and set(str(en)) <= {"0"}:
                    continue
                if b not in bits:
                    return regs, "register %s is clocked by %r, which is not a clock port" % (n[:60], b)
                regs += 1
    return regs, None


def verilog_sim(text):
    d = tempfile.mkdtemp(prefix="hv")
    try:
        mod = rtlc.netlist(text, "verilog", "top", d)
        return mod, rtlc.Sim(mod, d)
    finally:
        shutil.rmtree(d, ignore_errors=True)


POOL = [frames.HW_REG, frames.AC_REG, 0x83C00000 + frames.HW_REG] + [frames.SSSS_REG + 4 * i for i in range(8)] + [frames.DEBUG_REG + 4 * i for i in range(8)] + \
    [4 * i for i in range(12)]


def one(r, job):
    name = job["m"]
    ins, outs, kind = [x for x in T[name][:3]]
    ins, outs = list(ins), list(outs)
    try:
        text = generate([name])[name]
    except Bad as e:
        r.fail("generate", "%s: %s" % (name, e))
        return
    r.count("generated")
    d = captured(name)
    pre = T[name][3] if len(T[name]) > 3 else None
    if pre:
        a, b = axil(pre if not pre.endswith("_") else pre[:-1], "_" if pre.endswith("_") else "")
        ins += a
        outs += b
    if name == "axi_lite":
        x = axil("s_axi")
        outs += x[1] + ["s_axi_ro.rid", "s_axi_wo.bid", "s_axi_ro.rlast"]
        ins = x[0] + ["s_axi_ri.arid", "s_axi_wi.awid"]
        ins += ["m_axi_ri." + n for n in ("arready", "rdata", "rresp", "rvalid")] + ["m_axi_wi." + n for n in ("awready", "wready", "bresp", "bvalid")]
        outs += ["m_axi_ro." + n for n in ("araddr", "arvalid", "rready")] + ["m_axi_wo." + n for n in ("awaddr", "awvalid", "wdata", "wstrb", "wvalid", "bready")]
    sig = {}
    for p in ins + outs:
        sig[p] = attr(d, p)
    pin, pout = {}, {}

    def make():
        i = {"i%d" % k: sig[p] for k, p in enumerate(ins)}
        o = {"o%d" % k: sig[p] for k, p in enumerate(outs)}
        if "core" in kind:
            import clk_domains
            i["core_rst"] = clk_domains.CORE.rst
        return d, i, o, "full" in kind
    try:
        ref = hw.build(make)
        mod, v = verilog_sim(text)
        for k, p in enumerate(ins):
            n = sig[p].name
            if n not in v.inputs:
                raise Bad("the input %s is no port (inputs are %s)" % (p, ", ".join(sorted(v.inputs))))
            pin["p_i%d" % k] = n
        for k, p in enumerate(outs):
            n = sig[p].name
            if n not in v.outputs:
                raise Bad("the output %s is no port (outputs are %s)" % (p, ", ".join(sorted(v.outputs))))
            pout["q_o%d" % k] = n
        for a, b in (("full_rst", "full_rst"), ("rst", "rst"), ("p_core_rst", "rst")):
            if a in ref.inputs:
                if b not in v.inputs:
                    raise Bad("the reset %s is no port" % b)
                pin[a] = b
        for n in (["full_clk"] if "full" in kind else ["clk"] if "sync" in kind else []):
            if n not in mod["ports"]:
                raise Bad("there is no clock port %s" % n)
        regs, bad = clocks(mod)
        if bad:
            raise Bad(bad)
        r.count("registers", regs)
        r.count("ports", len(pin) + len(pout))
        wide = {a: (ref.inputs[a][1], v.inputs[b][1]) for a, b in pin.items()}
        wide.update({a: (ref.outputs[a][1], v.outputs[b][1]) for a, b in pout.items()})
        for a, (x, y) in wide.items():
            if x != y:
                raise Bad("port %s has %d bits, the signal %d" % (pin.get(a) or pout[a], y, x))
    except Bad as e:
        r.fail("ports", "%s: %s" % (name, e))
        r.ok((name, "ports"))
        return
    r.count("modules")
    bits = [a for a in pin if wide[a][0] == 1 and "rst" not in a]
    words = [a for a in pin if wide[a][0] > 1]
    rsts = [a for a in pin if "rst" in a]
    for c in r.cases():
        g = r.rng(c)
        n = g.randint(500, 4000)
        ref.reset()
        v.reset()
        changed = 0
        last = None
        rate = {}
        p_rst = g.choice((0, 0, .002))
        err = None
        for t in range(n):
            if t % 200 == 0:
                for a in bits:
                    rate[a] = g.choice((0, .02, .1, .5, .9, .98, 1))
                small = g.random() < .5
            for a in rsts:
                x = int(g.random() < p_rst)
                ref.set(a, x)
                v.set(pin[a], x)
            for a in bits:
                x = int(g.random() < rate[a])
                ref.set(a, x)
                v.set(pin[a], x)
            for a in words:
                if g.random() < .3:
                    nm, w = pin[a], wide[a][0]
                    if "addr" in nm and w == 32:
                        x = g.choice(POOL)
                    elif small and w <= 32:
                        x = g.randint(0, min(9, (1 << w) - 1))
                        if nm.endswith("wdata"):
                            x |= 4 * g.randint(1, 4) << 16
                    else:
                        x = g.getrandbits(w)
                    ref.set(a, x)
                    v.set(nm, x)
            ref.eval()
            v.eval()
            now = [ref.get(a) for a in pout]
            if now != last:
                changed += 1
                last = now
            for a, x in zip(pout, now):
                y = v.get(pout[a])
                if x != y:
                    err = "cycle %d: output %s is %x, in the Verilog %x" % (t, pout[a], x, y)
                    break
            if err:
                break
            ref.tick()
            v.tick()
        r.count("cycles_compared", n)
        r.count("outputs_changed", changed)
        r.ok((name, c, n, changed))
        r.sample("%s: %d cycles, outputs changed in %d" % (name, n, changed))
        if err:
            r.fail("lock-step", "%s: %s" % (name, err))
        if r.enough:
            break


def rest(r, job):
    """the modules not run in lock-step can at least be read (in the thorough run with all others in one go)"""
    try:
        out = generate(REST + (sorted(T) if job["all"] else []) if not job.get("only") else [job["only"]])
        r.count("generated", len(out))
        for n in out:
            mod, _ = verilog_sim(out[n])
            regs, bad = clocks(mod)
            if bad and n != "beta_integration_fullaxi":
                raise Bad("%s: %s" % (n, bad))
            r.count("registers", regs)
            r.ok((n, regs))
    except Bad as e:
        r.fail("generate", str(e))
        r.ok("generate")
