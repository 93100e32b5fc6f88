import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe}
    if state: a["state"]=state
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})
M="migen_src/"
def ms(*n): return [M+x+".py" for x in n]
p("C01","Compression is lossless",
 "For every frame whose width is a multiple of four, and every core configuration (2 to 16 bit pixels; 1, 2 or 4 pixels per cycle; any output width, converter width and FIFO sizes), the words put out decode, with the configured Huffman codes and the standard lossless-JPEG previous-sample predictor over four interleaved components, to exactly the pixels put in. The last word and only it is flagged as the end, and the bits after the last code are zeros that fill less than one word.",
 ["inputs","configurations"],"all frame sizes, pixel values, and core configurations","The tests compare three stored frames at one configuration; a code, carry or packing error at another bit depth, difference class or size goes unseen.",
 ms("integration_3","integration_2","integration_1","vbits_to_cbits","encode"),[("encoder pipeline","integration_1.Integration1"),("bit packing","vbits_to_cbits.VBitsToCBits")],["words accepted at the output port of integration_3, beta and micro"])
p("C02","Stalls on either side never change, lose or freeze the stream",
 "For every pattern of pauses of the pixel source and of the receiver, the core puts out the same words and end flag as without pauses. A word that is offered and not taken stays offered unchanged until it is taken, and while neither side pauses for ever the frame is finished; without pauses it is finished within a few cycles per pixel, chunk and word of the slowest stage.",
 ["schedules","inputs","configurations"],"all schedules of source and receiver stalls","There are unboundedly many stall patterns; the tests use one or two fixed ones.",
 ms("integration_2","lj92_pipeline_fifo","converter","converter_fifo","vbits_to_cbits","fix_0xff","fix_0xff2","markers"),[("back-pressure","integration_2.Integration2 nready"),("buffered handshakes","fix_0xff.Fix0xFF, fix_0xff2.Fix0xFF2")],["valid/ready at both ports of integration_3, beta and micro, each cycle"])
p("C03","Each frame leaves the products framed and byte-stuffed",
 "For every frame, the beta and micro products put out eight 0xFFFF words, then the scan in 16-bit words with a zero byte after every 0xFF byte and padded with zeros to a whole word, then eight 0xFFFF words, and nothing else. The last of those words, and no other, is flagged as the end, so that the receiver can find every frame in the stream.",
 ["inputs","schedules"],"all frames and receiver schedules","Where 0xFF bytes fall, and so which padding and carry paths run, depends on the frame; the stored frames cover few of them.",
 ms("beta_integration","micro_integration","fix_0xff","fix_0xff2","markers","auto_reset"),[("markers","markers.Markers"),("stuffing","fix_0xff, fix_0xff2"),("self reset","auto_reset.AutoReset")],["words accepted at the output ports of beta and micro"])
p("C04","Every frame is encoded independently of what came before",
 "In any sequence of frames sent through a product without an external reset, each frame's output is the one it would have on its own, whether the source waits for the end word or offers the next pixels at once, and whether or not the frame size is changed between frames. The same holds for a frame sent after a reset in the middle of another frame.",
 ["histories","schedules","crash_points"],"all sequences of frames, sizes, stalls, and points of reset","State left over from one frame shows only in a later one, for particular contents, sizes and cycle offsets.",
 ms("beta_integration","micro_integration","auto_reset","integration_2","clk_domains"),[("self reset after each frame","auto_reset.AutoReset"),("input gate around the reset","integration_2.Integration2 nready_end/nready_reset")],["words accepted at the output ports over many frames"])
p("C05","A frame over its cycle budget is cut off, marked, and forgotten",
 "A frame that is not complete when its cycle budget (counted from its first pixel) runs out ends, however source and receiver stall, with eight 0xFFFE words, the last flagged as the end, after the eight 0xFFFF start words and a proper prefix of the words it would have put out. A frame that completes within the budget is never cut, words offered and not yet taken stay unchanged, and the next frame is encoded in full.",
 ["schedules","crash_points","inputs"],"all frames, budgets and stall schedules","The instant at which the budget runs out meets each pipeline state only in particular schedules.",
 ms("force_end","markers","beta_integration","micro_integration"),[("cycle budget","force_end.ForceEnd"),("forced end marker","markers.Markers FORCE_ENDING_MARKER")],["output words, end flags and the cycles they are taken in"])
p("C06","The stream wrappers keep the AXI-Stream rules and carry every beat",
 "For every schedule of valid and ready, the AXI-Stream, FIFO and LVDS wrappers take each input beat exactly once, in order, with each pixel in its fixed position, and put out the same words as the core, packed most significant word first where the output is wider. tvalid does not wait for tready, an offered beat stays unchanged until taken, and tlast is set on exactly the last word of a frame.",
 ["schedules","inputs"],"all frames and valid/ready schedules","The tests do not simulate the wrappers at all.",
 ms("beta_integration_axistream","micro_integration_axistream","beta_integration_fifo_axistream","beta_integration_fifo_lvds","integration_3_axi_stream"),[("stream wrappers","beta_integration_axistream.py and siblings")],["both AXI-Stream ports, each cycle"])
p("C07","Each pixel meets the right predictor and frame boundaries are found",
 "For every frame size and every pattern of gaps, each pixel is paired with the previous pixel of its component in the row, or the first pixels of the row above at a row start, or half of the full scale at the frame start. The end of the frame is signalled with its last pixels, exactly then, for every height and width.",
 ["inputs","configurations","schedules"],"all frame sizes, bit depths, pixel rates and input gaps","Row and frame boundaries meet the pixel pipeline differently for each size and gap pattern.",
 ms("predictor_p1_c4_pix1_2","predictor_p1_c4_px4","signals"),[("predictor","predictor_p1_c4_pix1_2, predictor_p1_c4_px4"),("row and frame counters","signals.Signals")],["outputs of predictor and signals stages"])
p("C08","Every difference gets its standard code",
 "For every pixel and prediction of every bit depth, the pipeline forms the difference modulo 2^16, finds its class, and produces the Huffman code of the class followed by the standard additional bits, with the exact code length. The valid and end marks travel with the data.",
 ["inputs","configurations"],"all pixel/prediction pairs at bit depths 2 to 16 and all lanes","There are 2^32 pairs at 16 bits; the tests try a handful at 12 bits.",
 ms("difference","normalize","encode"),[("difference","difference.Difference"),("class and mantissa","normalize.Normalize"),("code","encode.Encode")],["output of each stage and of the three in a row"])
p("C09","Codes of one cycle are joined in pixel order",
 "For every set of two or more codes of one cycle, the merge stage puts out the codes one after the other in pixel order, none, one or several of them of any lengths, with the sum of the lengths. Valid and end marks travel with the data, in order.",
 ["inputs","configurations"],"all code lengths and values for any number of codes per cycle from two up","The combination of code lengths selects shift amounts; the tests try few.",
 ms("merge"),[("merge","merge.Merge")],["output of the merge stage"])
p("C10","FIFOs and converter keep every bit and its order",
 "For every sequence of variable-length words and every pattern of arrivals and removals, the pipeline FIFO, the converter and the converter FIFO deliver the same bits in the same order, split into chunks no longer than the converter's width, with the end mark on the last chunk only. No word is taken without room for it: the fullness signal is raised early enough for what is still in flight.",
 ["schedules","inputs","configurations"],"all sequences of lengths, stalls and configurations","Overflow and split cases need particular fill levels and lengths together.",
 ms("lj92_pipeline_fifo","converter","converter_fifo"),[("pipeline FIFO","lj92_pipeline_fifo.LJ92PipelineFifo"),("converter","converter.Converter"),("converter FIFO","converter_fifo.ConverterFifo")],["bits in and bits out of the three stages"])
p("C11","Variable-length chunks are packed into words without loss",
 "For every sequence of chunks and every pattern of stalls, the packing stage puts out exactly the bits it took, in order, in full words, with the last word filled with zeros and flagged as the end. It takes a chunk exactly when it says so, and an offered word stays until it is taken.",
 ["schedules","inputs","configurations"],"all chunk lengths, stalls, word and buffer widths","The buffer's fill level selects among many shift cases.",
 ms("vbits_to_cbits"),[("packing","vbits_to_cbits.VBitsToCBits")],["bits in and words out of the stage"])
p("C12","Byte stuffing inserts exactly the needed zero bytes",
 "For every sequence of 16-bit words and every handshake schedule, the two stuffing stages put out the same bytes with one zero byte after each 0xFF byte, repacked into 16-bit words without gaps, and one zero byte at most to fill the last. The last word is flagged, and up to it no word is lost, repeated or changed while it is offered.",
 ["schedules","inputs"],"all byte sequences and handshake schedules","A stall meets each of the repacking states only in particular sequences of 0xFF bytes.",
 ms("fix_0xff","fix_0xff2"),[("stuffing","fix_0xff.Fix0xFF"),("repacking","fix_0xff2.Fix0xFF2")],["handshakes and words at both ports"])
p("C13","The marker stage frames any word sequence",
 "For every sequence of words and every handshake schedule, the marker stage puts out eight 0xFFFF words, the words, and eight 0xFFFF words with the last flagged. When a forced end is asked for before the last word is taken it puts out eight 0xFFFE words instead after the words taken so far; an offered word is never withdrawn or changed.",
 ["schedules","inputs","crash_points"],"all word sequences, handshake schedules and instants of a forced end","The forced end can coincide with any state of the handshake.",
 ms("markers"),[("markers","markers.Markers")],["handshakes and words at both ports"])
p("C14","The width adapters keep every bit in order",
 "For every sequence of words and every handshake schedule, the adapters between 16, 32, 40 and 64 bit words put out exactly the bits they took, in their order, and nothing else; the one for 24-bit links puts out the upper 48 bits of each 64-bit word as two 24-bit words. They neither lose a word offered while they are ready, nor withdraw or change a word they offer.",
 ["schedules","inputs"],"all data and handshake schedules","The tests do not simulate the adapters.",
 ms("b16_b40","b16_b64","b64_b32","b64_b32_2"),[("adapters","b16_b40.B16B40, b16_b64.B16B64, b64_b32.B64B32, b64_b32_2.B64B322")],["handshakes and words at both ports"])
p("C15","Core registers read back what was written, whatever the core is doing",
 "For every sequence of AXI-Lite reads and writes with any byte strobes and handshake timing, a read of the frame size, cycle budget or Huffman registers returns the bytes last written and each access gets one response: an error for addresses that do not exist, a slave error for writes to read-only counters. Frames in progress and the core's own reset neither disturb an access nor are disturbed by reads.",
 ["histories","schedules","inputs"],"all access sequences, strobes, handshake timings and interleavings with frames","The test writes and reads a few registers with fixed timing.",
 ms("core_axi_lite","integration_1","encode"),[("register bus","core_axi_lite.CoreAxiLite")],["the AXI-Lite port of the core, each cycle; stream output"])
p("C16","New Huffman codes take effect for the next frame, in every lane",
 "For every prefix-free set of Huffman codes written through the registers between frames, at every bit depth and pixel rate, the following frames are encoded with exactly these codes in all lanes until they are changed again. A core that is not reprogrammed uses the default codes.",
 ["histories","inputs","configurations"],"all code tables, bit depths, pixel rates and sequences of changes","Each table entry and lane has its own memory; tests write a few.",
 ms("core_axi_lite","encode","integration_1"),[("Huffman memories","encode.Encode, core_axi_lite.CoreAxiLite wp_*")],["register writes and output words"])
p("C17","The AXI bridge pairs responses with their requests",
 "For every sequence of single-beat reads and writes with any ids and handshake timing, the AXI3 to AXI-Lite bridge passes address, data, strobes and responses through unchanged and answers each request with its own id, one response per request, flagged as last.",
 ["histories","schedules"],"all ids, addresses and handshake timings","There is no test of the bridge.",
 ms("axi_lite"),[("bridge","axi_lite.AxiLite")],["both ports of the bridge with the core's registers behind it"])
p("C18","DMA registers read back what was written",
 "For every sequence of AXI-Lite accesses with any strobes and timing, the three DMA control registers hold and drive the bytes last written, the nine status registers read the values at their inputs and refuse writes, and other addresses are answered with a decode error. Each access gets one response that stays until it is taken.",
 ["histories","schedules","inputs"],"all access sequences and handshake timings","There is no test of the DMA registers.",
 ms("dma_axi_lite"),[("DMA registers","dma_axi_lite.DMAAxiLite")],["the AXI-Lite port, register outputs, each cycle"])
p("C19","The memory reader, writer and their FIFO move every beat once",
 "For every schedule of the memory's handshakes, the reader and writer issue bursts of sixteen 64-bit beats at the addresses they are given, each once, at most eight at a time, and move each data beat exactly once and in order with the last of each burst flagged; they count what is outstanding exactly and report errors. The FIFO keeps order and states its room and level truthfully, and the address generator steps from its starting address once per address taken.",
 ["schedules","fault_sequences"],"all memory handshake schedules and error responses","There is no test of these modules.",
 ms("axihp_reader","axihp_writer","axihp_fifo","address_generator"),[("burst reader","axihp_reader.AxiHPReader"),("burst writer","axihp_writer.AxiHPWriter"),("FIFO","axihp_fifo.AxiHPFifo"),("addresses","address_generator.AddressGenerator")],["AXI read/write channels and FIFO ports, each cycle"])
p("C20","The debug counters and small helpers count what happened",
 "Each debug counter advances by exactly the number of cycles in which its event line was asserted, keeps its value when the core resets itself, and is what a register read returns; in beta and micro the events are the input idle/valid, output idle/valid, input refused/accepted and receiver busy/ready cycles from the one after a frame's first input up to the first offer of its end word. The delay line asserts its output its number of stages (two or more) after the first input and keeps it, the bit reverser reverses any word, and the reset pulse follows exactly the handshake of the end word, for one cycle.",
 ["schedules","histories"],"all enable patterns, delays and widths","Tests run one pattern for a few cycles.",
 ms("debug_module","core_axi_lite","delayer","reverser","auto_reset","beta_integration"),[("counters","debug_module.DebugModule"),("delay","delayer.Delayer"),("reverser","reverser.Reverser")],["counter values, register reads, output bits, each cycle"])
p("C21","The shipped defaults encode full-size sensor frames",
 "As shipped, beta and its stream wrappers encode frames of 4096 by 3072 pixels without reprogramming: at full input rate a frame whose code needs at most 8 bits per pixel comes out framed, stuffed and complete, decoding to its pixels, and only one that needs more cycles than the default budget of 6666000 is cut off. Every product encodes the raw frames in test_files to exactly the bytes of the _headerless.lj92 files beside them.",
 ["inputs"],"all full-size frames at full rate","Elaborating and simulating 12.6 million pixels is too slow for the unit tests.",
 ms("register_file","beta_integration","integration_1","signals","force_end"),[("default frame size and budget","register_file.RegisterFile")],["all output words of full-size frames"])
L=["liblj92/lj92.c"]
p("C22","liblj92 encodes any image into a standard file that decodes back to it",
 "For every image of 2 to 16 bits and every read length, skip and delinearization table, lj92_encode gives a file that any lossless-JPEG (T.81) decoder decodes to exactly the image's samples (after the table), and lj92_decode decodes it to the same into any tile, through any linearization table, without touching the gaps. A value outside the table is answered with the too-wide status, a failed allocation with the out-of-memory status, and nothing is leaked or changed.",
 ["inputs","configurations","fault_sequences"],"all images, bit depths, sizes, strides, tables and failing allocations","The repository has no test of the library; the classes of differences and the code tables depend on the image.",
 L,[("encoder","liblj92/lj92.c lj92_encode, frequencyScan, createEncodeTable, writeBody"),("decoder","liblj92/lj92.c parsePred6, nextdiff")],["bytes given back by lj92_encode, samples and status of lj92_decode, allocations"])
p("C23","liblj92 decodes every standard single-scan lossless JPEG",
 "For every lossless JPEG with one to four components, predictor 1 to 7, 2 to 16 bits and one Huffman table of any kind, with its segments in any order and comments, application data or fill bytes between them, lj92_open reports its dimensions and lj92_decode gives exactly its samples, in the tile asked for. A file that is cut off before its last sample, has no frame, table or scan, or has a value it cannot decode or a sample outside the linearization table gets an error status.",
 ["inputs","configurations"],"all standard streams of that kind, tile strides and points of truncation","The repository has no test of the library; the utilities only decode files with one table, predictor and component count.",
 L,[("segments","liblj92/lj92.c parseHuff, parseSof3, parseImage"),("prediction","liblj92/lj92.c parseScan, parsePred6"),("codes","liblj92/lj92.c nextdiff")],["dimensions, samples and status given by lj92_open and lj92_decode"])
p("C24","liblj92 is memory-safe on any bytes",
 "For every byte sequence, lj92_open and lj92_decode end, with a status, without undefined behaviour, reads outside the data given or writes outside the tile of the dimensions reported, and after lj92_close (or a failed open) no memory is left allocated. The data is never written to, and an error status comes without a handle to close.",
 ["inputs"],"all byte sequences, strides and tables","The input space is unbounded and the errors show only under a sanitizer.",
 L,[("header parsing","liblj92/lj92.c parseHuff, parseSof3, find"),("scan decoding","liblj92/lj92.c nextdiff, parseScan, parsePred6")],["sanitizer reports, allocation counts, exit of each call"])

p("C25","A receiver can split, head and decode every frame the products put out",
 "For every sequence of frames and any stalls, the word stream of the beta and micro products splits at its start and end marks into frames, and a frame with a standard header in front of it (4 components of a quarter of the width, predictor 1, the code table of the core) is decoded by liblj92 to exactly the pixels that went in. A frame that was cut off by the budget carries the forced mark and decodes to an error, except where only bits of padding are missing.",
 ["inputs","schedules","histories"],"all frames, stall schedules, budgets and histories of frames","The core and the library are tested apart, and the header, the classes and the stuffing have to agree between them.",
 ms("markers","integration_3","beta_integration","micro_integration","encode","fix_0xff")+L,[("stream","migen_src/markers.py LJ92Markers"),("decoder","liblj92/lj92.c")],["words of the stream, samples decoded by liblj92"])
SW=["software/src/core_axi_lite.cpp","software/src/xilinx_dma.cpp","software/src/mmap_handler.cpp","software/src/tools.cpp"]
p("C26","The board library reads and sets the core's registers and runs DMA transfers",
 "For every history of calls, the getters of CoreAXILite give what was set (setting one half of a shared register leaves the other), get_ssss lists each class with the code and length the core uses, get_debug lists the core's event counts under their names, and a bit depth the core cannot have is refused. XilinxDMA starts the transfers asked for in the order the engine needs, its sync calls return when the transfer is done and not before, its status lists are those of the status registers, and every access is a 32-bit one to a register that exists.",
 ["histories","configurations","schedules"],"all call histories, bit depths, tables, completion times and status values","There are no tests of the software, and it only runs on a board.",
 SW+ms("core_axi_lite","axi_lite","register_file","debug_module"),[("registers","software/src/core_axi_lite.cpp CoreAXILite"),("transfers","software/src/xilinx_dma.cpp XilinxDMA")],["device accesses of the library, values it returns, registers and events of the simulated core"])

p("C27","The board's test program tells a right result from a wrong one",
 "For every 4096x3072 raw12 image and compressed file, xilinx_test leaves exactly the image's pixels in memory in the layout the stream wrapper takes, sets size and budget, and moves them through the core; with the core of this tree and the file of the image it reports the start mark, the normal end mark and success. If what comes back differs from the file in any byte it reports the first such word or byte and no success, a missing or damaged mark is reported as missing, the forced mark as forced, and missing or short files end it with a failure.",
 ["inputs","schedules"],"all images, files, differences and marks","The program only runs on a board, and nobody tests the test program.",
 ["software/src/xilinx_test.cpp","software/src/config.h"]+SW+ms("beta_integration_fifo_axistream","beta_integration_axistream"),[("verdict","software/src/xilinx_test.cpp validate, check_first_marker, check_last_marker"),("layout","software/src/xilinx_test.cpp re_order_set_raw12_64bits, re_order_set_raw12_32bits")],["words in the board's memory, device accesses, lines printed by the program"])

p("C28","The generated Verilog is the design, with all of its ports",
 "For every module, generate_verilog.py writes a Verilog file whose top module has every signal of the module's interface as a port, with its width and direction, and the clock and resets its registers use; modules without a design leave no file. For every sequence of inputs and resets, each output of the Verilog has in every cycle the value it has in the nMigen design that the module's script builds.",
 ["inputs","histories","configurations"],"all modules, input sequences and resets","The tests simulate the nMigen classes; nothing generates the files users synthesize, and a signal left out of a port list shows nowhere else.",
 ["generate_verilog.py"]+ms("clk_domains","beta_integration","micro_integration","beta_integration_axistream","beta_integration_fifo_axistream","integration_3_axi_stream","markers","core_axi_lite"),[("port lists","migen_src/beta_integration.py BetaIntegration.ios"),("clocks","migen_src/clk_domains.py load_clk")],["ports and clock nets of the generated Verilog, outputs of both in each cycle"])

p("C29","A configuration the core cannot have is refused, every other one works",
 "Building integration_3 for another predictor or number of components than its own raises an error. With a bit depth outside 2 to 16, a rate other than 1, 2 or 4 pixels per cycle, an output width that is not a multiple of eight, a converter that is empty or wider than a cycle's longest code, a packing buffer smaller than converter and output width together, or FIFOs too small for what is in flight it raises an error, or else the core built encodes every frame all the same. Every configuration within these limits is accepted, however unusual, and its core puts out exactly the words of the frame's standard code, under any stalls.",
 ["configurations","inputs","schedules"],"all configurations at, within and over the limits, all frames and stall schedules","The tests build a handful of configurations, none at a limit, and none that should be refused.",
 ms("integration_3","integration_2","integration_1","vbits_to_cbits","converter","converter_fifo","lj92_pipeline_fifo","predictor_p1_c4_pix1_2","predictor_p1_c4_px4"),[("configuration assertions","the constructors of converter, converter_fifo, vbits_to_cbits, lj92_pipeline_fifo and the predictors"),("FIFO thresholds","converter_fifo.ConverterFifo steps, lj92_pipeline_fifo.LJ92PipelineFifo close_full")],["error or design from the constructor; words accepted at the output port of integration_3"])

p("C30","Calls of liblj92 do not disturb each other",
 "What lj92_open, lj92_decode and lj92_encode give depends on their arguments alone: not on what the handle decoded before, successfully or not, on other handles that are open, or on calls made at the same time in other threads on other handles, even of the same file, image or tables. Calls in several threads have no data race, as long as one handle is used by one thread at a time.",
 ["schedules","histories","inputs"],"all histories of calls and interleavings of threads","The repository has no tests of the library.",
 ["liblj92/lj92.c","liblj92/lj92.h"],[("state of a handle","liblj92/lj92.c struct _ljp, parseScan, parsePred6"),("state of an encoding","liblj92/lj92.c struct _lje, lj92_encode")],["status, dimensions, samples and bytes of each call; ThreadSanitizer's happens-before"])

if __name__ == "__main__":
    import os
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(path, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["title"]
            f.write(json.dumps(x) + "\n")
