"""How to instantiate each design and which of its public signals we drive and
watch.  Every builder returns (dut, inputs, outputs, has_full_domain)."""


_made = {}


def track(modname, clsname):
    """remember the instances of a class, however deep the design puts them"""
    mod = __import__(modname)
    cls = getattr(mod, clsname)
    if getattr(cls, "_vp_tracked", False):
        return
    orig = cls.__init__

    def init(self, *a, **k):
        orig(self, *a, **k)
        _made.setdefault(clsname, []).append(self)
    cls.__init__ = init
    cls._vp_tracked = True


def made(clsname):
    l = _made.get(clsname)
    return l[-1] if l else None


def forget():
    """what was constructed and is not a part of the design to come"""
    _made.clear()


def _patch_register_file():
    """Frame size and cycle budget as ports instead of the built-in constants."""
    import register_file, clk_domains
    from nmigen import Elaboratable, Module, Signal

    class Regs(Elaboratable):
        def __init__(self):
            self.height = Signal(16)
            self.width = Signal(16)
            self.allowed_cycles = Signal(24)
            self.ios = [self.height, self.width, self.allowed_cycles]
            _made.setdefault("RegisterFile", []).append(self)

        def elaborate(self, platform):
            m = Module()
            clk_domains.load_clk(m)
            return m
    register_file.RegisterFile = Regs


def prepare(patch=True):
    if patch:
        _patch_register_file()
    track("core_axi_lite", "CoreAxiLite")
    track("force_end", "ForceEnd")


def _extra(ins, outs, fend=True):
    r = made("RegisterFile")
    if r is not None:
        ins.update({"h": r.height, "w": r.width, "ac": r.allowed_cycles})
    c = made("CoreAxiLite")
    if c is not None:
        a, b = axil_ports(c)
        ins.update(a)
        outs.update(b)
    f = made("ForceEnd")
    if f is not None and fend:
        outs["fend"] = f.fend


def axil_ports(c, suffix="", pre="ax_"):
    ri = getattr(c, "s_axi_ri" + suffix)
    ro = getattr(c, "s_axi_ro" + suffix)
    wi = getattr(c, "s_axi_wi" + suffix)
    wo = getattr(c, "s_axi_wo" + suffix)
    ins = {pre + n: getattr(ri, n) for n in ("araddr", "arprot", "arvalid", "rready")}
    ins.update({pre + n: getattr(wi, n) for n in ("awaddr", "awprot", "awvalid", "wdata", "wstrb", "wvalid", "bready")})
    outs = {pre + n: getattr(ro, n) for n in ("arready", "rdata", "rresp", "rvalid")}
    outs.update({pre + n: getattr(wo, n) for n in ("awready", "wready", "bresp", "bvalid")})
    return ins, outs


def base_config(**k):
    c = {"bit_depth": 12, "pixels_per_cycle": 2, "LJ92_fifo_depth": 64, "out_bits": 16,
         "converter": 30, "converter_fifo_depth": 64, "vbits_to_cbits_buffer_size": 77,
         "predictor_function": 1, "num_of_components": 4, "axi_lite_debug": False,
         "support_axi_lite": False}
    c.update(k)
    return c


def int3(cfg):
    def make():
        prepare()
        import integration_3, constraints
        d = integration_3.Integration3(cfg, constraints.Constraints())
        ins = {"p%d" % i: s for i, s in enumerate(d.pixels_in)}
        ins.update({"vin": d.valid_in, "busy": d.busy_in})
        outs = {"vout": d.valid_out, "data": d.data_out, "end": d.end_out, "nready": d.nready}
        _extra(ins, outs)
        return d, ins, outs, True
    return make


def int2(cfg):
    def make():
        prepare()
        import integration_2, constraints
        d = integration_2.Integration2(cfg, constraints.Constraints())
        ins = {"p%d" % i: s for i, s in enumerate(d.pixels_in)}
        ins.update({"vin": d.valid_in, "latch": d.latch_output})
        outs = {"vout": d.valid_out, "data": d.enc_out, "ctr": d.enc_out_ctr, "end": d.out_end,
                "nready": d.nready}
        _extra(ins, outs)
        return d, ins, outs, True
    return make


def int1(cfg):
    def make():
        prepare()
        import integration_1, constraints
        d = integration_1.Integration1(cfg, constraints.Constraints())
        ins = {"p%d" % i: s for i, s in enumerate(d.pixels_in)}
        ins.update({"vin": d.valid_in})
        outs = {"vout": d.valid_out, "data": d.enc_out, "ctr": d.enc_out_ctr, "end": d.end_out}
        _extra(ins, outs)
        return d, ins, outs, True
    return make


def product(name, patch=True, override=None):
    """beta, micro and their stream wrappers.  override: configuration entries
    to change before the design is built (the core's own registers, say)."""
    def make():
        prepare(patch)
        if override:
            import integration_3
            orig = integration_3.Integration3.__init__

            def init(self, config, cons):
                config.update(override)
                orig(self, config, cons)
            integration_3.Integration3.__init__ = init
        mod, cls = {
            "beta": ("beta_integration", "BetaIntegration"),
            "micro": ("micro_integration", "MicroIntegration"),
            "beta_axis": ("beta_integration_axistream", "BetaIntegrationAxiStream"),
            "micro_axis": ("micro_integration_axistream", "MicroIntegrationAxiStream"),
            "beta_fifo": ("beta_integration_fifo_axistream", "BetaIntegrationFIFOAxiStream"),
            "beta_lvds": ("beta_integration_fifo_lvds", "BetaIntegrationFIFOLVDS"),
            "int3_axis": ("integration_3_axi_stream", "Integration3AxiStream"),
        }[name]
        d = getattr(__import__(mod), cls)()
        ins, outs = {}, {}
        if name == "beta":
            ins.update({"p0": d.pixel_in1, "p1": d.pixel_in2})
        if name == "micro":
            ins.update({"p0": d.pixel_in})
        if name in ("beta", "micro"):
            ins.update({"vin": d.valid_in, "busy": d.busy_in})
            outs.update({"vout": d.valid_out, "end": d.end_out, "data": d.data_out, "nready": d.nready})
        else:
            ins.update({"s_tvalid": d.s_tvalid, "s_tdata": d.s_tdata, "m_tready": d.m_tready})
            outs.update({"s_tready": d.s_tready, "m_tvalid": d.m_tvalid, "m_tdata": d.m_tdata})
            if hasattr(d, "m_tlast"):
                outs["m_tlast"] = d.m_tlast
            if hasattr(d, "s_tlast"):
                ins["s_tlast"] = d.s_tlast
        _extra(ins, outs)
        return d, ins, outs, True
    return make


def simple(modname, clsname, ins, outs, full=True, args=()):
    """a stage on its own: named attributes become ports"""
    def make():
        d = getattr(__import__(modname), clsname)(*args)
        return (d, {k: getattr(d, v) for k, v in _pairs(ins)},
                {k: getattr(d, v) for k, v in _pairs(outs)}, full)
    return make


def _pairs(x):
    return x.items() if isinstance(x, dict) else [(n, n) for n in x]


# ---- groups of stages, wired the way integration_1/2 wire them -------------

class Group:
    """an Elaboratable with submodules and (to, from) connections"""

    def __new__(cls, mods, conns):
        from nmigen import Elaboratable, Module

        class G(Elaboratable):
            def elaborate(self, platform):
                m = Module()
                for i, x in enumerate(mods):
                    setattr(m.submodules, "s%d" % i, x)
                for a, b in conns:
                    m.d.comb += a.eq(b)
                return m
        return G()


def coder(bd, ps):
    """difference, normalize, encode"""
    def make():
        import difference, normalize, encode, constraints
        cfg, cons = base_config(bit_depth=bd, pixels_per_cycle=ps), constraints.Constraints()
        d, n, e = difference.Difference(cfg, cons), normalize.Normalize(cfg, cons), encode.Encode(cfg, cons)
        conns = list(zip(n.vals_in, d.vals_out)) + list(zip(n.vals_in_mns, d.vals_out_mns))
        conns += [(n.valid_in, d.valid_out), (n.end_in, d.end_out)]
        conns += list(zip(e.vals_in, n.vals_out)) + list(zip(e.ssssx, n.ssssx))
        conns += [(e.valid_in, n.valid_out), (e.end_in, n.end_out)]
        ins = {"vin": d.valid_in, "end": d.end_in}
        outs = {"vout": e.valid_out, "oend": e.end_out}
        for i in range(ps):
            ins["p%d" % i], ins["q%d" % i] = d.pixels_in[i], d.predics_in[i]
            outs["e%d" % i], outs["n%d" % i] = e.encs_out[i], e.encs_ctr[i]
        return Group([d, n, e], conns), ins, outs
    return make


def predict(bd, ps):
    """signals and predictor"""
    def make():
        import signals, constraints
        cfg, cons = base_config(bit_depth=bd, pixels_per_cycle=ps), constraints.Constraints()
        if ps == 4:
            import predictor_p1_c4_px4
            p = predictor_p1_c4_px4.PredictorP1C4Px4(cfg, cons)
        else:
            import predictor_p1_c4_pix1_2
            p = predictor_p1_c4_pix1_2.PredictorP1C4Pix12(cfg, cons)
        g = signals.Signals(cfg, cons)
        conns = [(p.new_row, g.new_row), (p.end_in, g.end_of_frame), (p.valid_in, g.new_input)]
        ins = {"vin": g.new_input, "h": g.height, "w": g.width}
        outs = {"vout": p.valid_out, "oend": p.end_out, "eof": g.end_of_frame, "row": g.new_row}
        for i in range(ps):
            ins["p%d" % i] = p.pixels_in[i]
            outs["p%d" % i], outs["q%d" % i] = p.pixels_out[i], p.predics_out[i]
        return Group([p, g], conns), ins, outs
    return make


def merger(bd, ps):
    def make():
        import merge, constraints
        m = merge.Merge(base_config(bit_depth=bd, pixels_per_cycle=ps), constraints.Constraints())
        ins = {"vin": m.valid_in, "end": m.end_in}
        for i in range(ps):
            ins["e%d" % i], ins["n%d" % i] = m.encs_in[i], m.encs_in_ctr[i]
        return m, ins, {"vout": m.valid_out, "oend": m.end_out, "e": m.enc_out, "n": m.enc_out_ctr}
    return make


def fifos(cfg):
    """pipeline FIFO, converter, converter FIFO"""
    def make():
        import lj92_pipeline_fifo, converter, converter_fifo, constraints
        cons = constraints.Constraints()
        f = lj92_pipeline_fifo.LJ92PipelineFifo(cfg, cons)
        c = converter.Converter(cfg, cons)
        o = converter_fifo.ConverterFifo(cfg, cons)
        conns = [(f.latch_output, c.latch_output), (c.enc_out, f.enc_out), (c.enc_out_ctr, f.enc_out_ctr),
                 (c.out_end, f.out_end), (c.valid_out, f.valid_out), (o.enc_in, c.enc_in),
                 (o.enc_in_ctr, c.enc_in_ctr), (o.in_end, c.in_end), (o.valid_in, c.valid_in),
                 (c.close_full, o.close_full)]
        return (Group([f, c, o], conns),
                {"vin": f.valid_in, "e": f.enc_in, "n": f.enc_in_ctr, "end": f.in_end, "latch": o.latch_output},
                {"vout": o.valid_out, "data": o.enc_out, "ctr": o.enc_out_ctr, "oend": o.out_end,
                 "full": f.close_full})
    return make


def packer(cfg):
    def make():
        import vbits_to_cbits, constraints
        v = vbits_to_cbits.VBitsToCBits(cfg, constraints.Constraints())
        return (v, {"e": v.enc_in, "n": v.enc_in_ctr, "end": v.in_end, "vin": v.valid_in, "busy": v.busy_in},
                {"data": v.data_out, "vout": v.valid_out, "latch": v.latch_input, "oend": v.end_out})
    return make


def stuffer():
    def make():
        import fix_0xff, fix_0xff2
        a, b = fix_0xff.Fix0xFF(), fix_0xff2.Fix0xFF2()
        conns = [(b.data_in, a.data_out), (b.valid_in, a.valid_out), (b.end_in, a.end_out),
                 (a.i_busy, b.o_busy), (b.data_in_ctr, a.data_out_ctr)]
        return (Group([a, b], conns),
                {"valid_in": a.valid_in, "data_in": a.data_in, "end_in": a.end_in, "i_busy": b.i_busy},
                {"valid_out": b.valid_out, "data_out": b.data_out, "end_out": b.end_out, "o_busy": a.o_busy})
    return make
