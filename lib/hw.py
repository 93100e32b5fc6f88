"""Build simulators for the repository's nMigen designs (PyPy, nmigen 0.1rc1).

A design is elaborated in a process of its own: clk_domains keeps a
module-global flag, so only the first elaboration of a process gets its clock
domains.  The wrapper gives every port a name of ours.
"""
import os, sys, tempfile, shutil, traceback

REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "migen_src")
sys.dont_write_bytecode = True
if SRC not in sys.path:
    sys.path.insert(0, SRC)
import warnings
warnings.simplefilter("ignore")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rtlc


class RepoError(Exception):
    """the repository's code refused to elaborate"""


def from_repo(exc):
    tb = traceback.extract_tb(exc.__traceback__)
    return any(os.path.abspath(f.filename).startswith(os.path.abspath(SRC)) for f in tb)


def build(make, verilog=None, keep=None):
    """make() -> (dut or list of duts, {port: signal} inputs, {port: signal} outputs[, extra])"""
    from nmigen import Module, Signal, Elaboratable
    from nmigen.back import rtlil
    d = tempfile.mkdtemp(prefix="hw")
    try:
        if verilog is not None:
            mod = rtlc.netlist(verilog[0], "verilog", verilog[1], d)
            return rtlc.Sim(mod, d)
        try:
            r = make()
            dut, ins, outs = r[:3]
            full = bool(len(r) > 3 and r[3])
            m = Module()
            if isinstance(dut, (list, tuple)):
                for i, x in enumerate(dut):
                    setattr(m.submodules, "dut%d" % i, x)
            else:
                m.submodules.dut = dut
            ports = []
            for n, s in ins.items():
                p = Signal(len(s), name="p_" + n)
                m.d.comb += s.eq(p)
                ports.append(p)
            for n, s in outs.items():
                p = Signal(len(s), name="q_" + n)
                m.d.comb += p.eq(s)
                ports.append(p)
            if full:
                import clk_domains
                ports += [clk_domains.FULL.clk, clk_domains.FULL.rst]
            text = rtlil.convert(m, ports=ports, name="top")
        except Exception as e:
            if from_repo(e):
                raise RepoError("%s: %s" % (type(e).__name__, e))
            raise
        mod = rtlc.netlist(text, "rtlil", "\\top", d)
        s = rtlc.Sim(mod, d)
        return s
    finally:
        if not os.environ.get("HW_KEEP"):
            shutil.rmtree(d, ignore_errors=True)
        else:
            print("kept", d, file=sys.stderr)
