SIM = ("runtime monitoring of the real design: the nMigen sources are elaborated, compiled to a cycle-accurate simulator "
       "and run under random and hostile workloads; ")
N = ("Sampled executions, not a proof. Oracles are an independent Python model of the documented behaviour and online "
     "protocol monitors on every cycle; the evidence counts frames, words, stalls and state pairs actually observed. ")
T = {
 "C01": (SIM + "offline decoding of the recorded output with an independent lossless-JPEG model", N),
 "C02": (SIM + "online handshake monitors, stall-schedule injection, differential against the unstalled run", N),
 "C03": (SIM + "offline comparison of the word log with a framing/stuffing model", N),
 "C04": (SIM + "frame histories and reset injection; each frame compared with its stand-alone reference", N),
 "C05": (SIM + "budget fault injection at every instant; trace-specification checker of the cut-off stream", N),
 "C06": (SIM + "AXI-Stream protocol monitors and packing reference on all wrappers", N),
 "C07": (SIM + "stage monitors comparing predictor and boundary outputs with a reference", N),
 "C08": (SIM + "stage monitors over every difference of every bit depth", N),
 "C09": (SIM + "stage monitor comparing joined codes with a reference", N),
 "C10": (SIM + "bit-conservation monitors across the FIFOs and converter under stall injection", N),
 "C11": (SIM + "bit-conservation and handshake monitors on the packing stage", N),
 "C12": (SIM + "byte-stuffing reference and handshake monitors under stall injection", N),
 "C13": (SIM + "trace-specification checker of the marker stage with forced ends injected at every cycle", N),
 "C14": (SIM + "bit-conservation and handshake monitors on the width adapters", N),
 "C15": (SIM + "AXI-Lite protocol monitors and a register model over access histories, alone and during frames", N),
 "C16": (SIM + "random code tables through the register port; output decoded with the reference", N),
 "C17": (SIM + "transaction monitors on both sides of the bridge", N),
 "C18": (SIM + "AXI-Lite protocol monitors and a register model", N),
 "C19": (SIM + "AXI burst, conservation and order monitors against a memory model with delays and errors", N),
 "C20": (SIM + "counter monitors against event counts recorded in the same run", N),
 "C21": (SIM + "full-size frames as shipped; streaming comparison with the reference", N),
}
LJ = ("runtime monitoring of the real library: lj92.c is compiled with AddressSanitizer and UndefinedBehaviorSanitizer and driven with "
      "buffers of exact size and counted allocations; ")
LN = ("Sampled executions, not a proof. The oracle is an independent T.81 encoder and decoder in Python; the evidence counts images, "
      "streams, statuses, classes and truncations actually observed. ")
T.update({
 "C22": (LJ + "output parsed and decoded by an independent strict decoder, decoded back into strided tiles, allocation faults injected", LN),
 "C23": (LJ + "standard streams written by an independent encoder, cut off and damaged in known ways", LN),
 "C24": (LJ + "grammar-based mutation and coverage-guided libFuzzer workloads", LN),
 "C25": (SIM + "the recorded stream split, headed and decoded by the sanitized liblj92 of the tree", N),
 "C26": ("runtime monitoring of the real board library: built with ASan, UBSan and load/store tracing, each device access becomes a bus "
         "transaction on the simulated core or on a model of the DMA engine with drawn delays; values compared online",
         "Sampled call histories, not a proof. The DMA engine is a model of its documentation, and the library runs on x86."),
 "C27": ("runtime monitoring of the real program: built with ASan, UBSan and load/store tracing, its memory a file and its devices the "
         "simulated core or a DMA model; injected differences in the result, reports compared with what was injected",
         "Sampled images, files and differences, not a proof. The DMA engine is a model, and the program runs on x86 with unsigned char as on the board."),
 "C28": ("runtime monitoring of the generated files: the tree's script writes the Verilog, which is compiled to a simulator of its own and run in "
         "lock-step with the design under random inputs and resets; a differential monitor compares every output in every cycle",
         "Sampled input sequences, not an equivalence proof. yosys both writes and reads the Verilog; modules whose ports have numbered names are only read."),
 "C29": (SIM + "configurations drawn at and over the limits offered to the constructor, the cores it gives compared with the reference under stall injection", N),
 "C30": ("runtime monitoring of the real library: lj92.c is compiled with ThreadSanitizer, and with AddressSanitizer and "
         "UndefinedBehaviorSanitizer, and runs drawn histories of calls on shared data in up to eight threads; each call is compared with what it gives alone", LN),
})
NA = {}
NOTES = ("All hardware checks simulate what the tree in /repo elaborates to at the time of the run (PyPy + yosys as netlist "
         "reader + clang); no hooks are compiled into /repo. ./run.sh <id> replay <file> re-runs one recorded violation.")
