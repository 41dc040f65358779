"""Writes properties.jsonl and MANIFEST.json from one list.

run:  python3 tools/props.py
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SIM = ("Every input of the check drives the module's own Migen description, compiled to C; each design's first run is "
       "cross-checked against Migen's evaluator and every violation is reproduced on that evaluator before it is reported. "
       "Finite sampling unless the note says exhaustive.")
TECH = "property-based testing: "

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, technique, note):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, technique=technique, note=note))


I, H, S, CFG, F = "inputs", "histories", "schedules", "configurations", "fault_sequences"

prop("C01", "RGB to YCbCr follows the BT.601 equation for every pixel",
     "Each pixel leaving the RGB-to-YCbCr converter is the BT.601 studio-range value of the pixel that entered it, computed with the converter's documented fixed-point coefficients: within rounding of the real-valued equation and never wrapping around the component range. It is the same whatever the neighbouring pixels and stalls are, for every supported component width.",
     [I, S, CFG], "all 2^24 8-bit pixels, every legal component/coefficient width, any stall pattern",
     "rgb2ycbcr_tb converts one picture and only displays it; no assertion compares a single pixel.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/common.py"],
     [("coefficients and saturation", "litevideo/csc/rgb2ycbcr.py RGB2YCbCrDatapath")], ["RGB2YCbCr.source"],
     "exhaustive and generated pixels against an independent fixed-point and real-valued model",
     "Exhaustive over 8-bit pixels with the default widths; sampled over the other widths and stall patterns.")
prop("C02", "YCbCr to RGB follows the BT.601 equation for every pixel",
     "Each pixel leaving the YCbCr-to-RGB converter is the BT.601 inverse of the pixel that entered it, within rounding of the real-valued equation and clamped to the component range instead of wrapping. It is the same whatever the neighbouring pixels and stalls are, for every supported component width.",
     [I, S, CFG], "all 2^24 8-bit triples (also those outside the studio range), every legal width, any stall pattern",
     "ycbcr2rgb_tb converts one picture and only displays it; saturation corners are never reached.",
     ["litevideo/csc/ycbcr2rgb.py", "litevideo/csc/common.py"],
     [("coefficients and saturation", "litevideo/csc/ycbcr2rgb.py YCbCr2RGBDatapath")], ["YCbCr2RGB.source"],
     "exhaustive and generated pixels against an independent fixed-point and real-valued model",
     "Exhaustive over 8-bit triples with the default widths; sampled over the other widths and stall patterns.")
prop("C03", "RGB to YCbCr and back returns the same colour",
     "Sending a pixel through the RGB-to-YCbCr and then the YCbCr-to-RGB converter returns every component within the quantisation error of 8-bit YCbCr (three steps when nothing clips in between). Greys come back as greys.",
     [I, S], "all 2^24 RGB pixels, chained converters under any stalls",
     "No test chains the two converters; each is only looked at on one picture.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py"],
     [("matched coefficient sets", "rgb2ycbcr_coefs / ycbcr2rgb_coefs")], ["RGB2YCbCr.sink", "YCbCr2RGB.source"],
     "round trip over every RGB pixel", "Exhaustive over the 2^24 pixels; the tolerance is stated in the check.")
prop("C04", "Pipelined converters neither lose, reorder nor alter items",
     "Every item accepted by a pipelined converter (colour space, float conversion, float multiply, float add) leaves it exactly once, in order, with its first/last marks, and its value depends on that item only. While the consumer stalls, the offered item stays unchanged and nothing is dropped; an unstalled pipeline moves one item per cycle.",
     [S, I], "any sequence of items, marks, input gaps and back-pressure, for each converter",
     "The tests stream pictures with fixed back-pressure and compare nothing per item.",
     ["litevideo/csc/rgb2ycbcr.py", "litevideo/csc/ycbcr2rgb.py", "litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py", "litevideo/float_arithmetic/floatmult.py", "litevideo/float_arithmetic/floatadd.py"],
     [("pipe_ce stalls the datapath", "PipelinedActor use in each converter")], ["sink/source endpoints"],
     "generated streams with stalls; metamorphic relation (an item alone versus within a stream)",
     "Sampled stall patterns and items.")
prop("C05", "Chroma resampling pairs the right pixels and keeps luma",
     "4:4:4 to 4:2:2 keeps every luma sample and sends, for each pair of pixels counted from the marked start of a run, the average of the pair's Cb and then of its Cr; 4:2:2 to 4:4:4 gives both pixels of a pair the Cb and Cr received for that pair. Luma stays aligned with its chroma, whatever the stalls of whole runs, and restarting the phase at a line start always begins a new pair with Cb.",
     [I, S, H], "any picture lines, run lengths and phase restarts",
     "ycbcr422to444_tb checks one fixed stream; the other direction only displays a picture.",
     ["litevideo/csc/ycbcr444to422.py", "litevideo/csc/ycbcr422to444.py"],
     [("parity counter restarted at line start", "YCbCr444to422Datapath.first / YCbCr422to444.reset")], ["source endpoints"],
     "generated lines against a pairing model; round trip of chroma-constant pairs", "Sampled lines, values and phases.")
prop("C06", "8-bit pixels and half floats convert exactly",
     "Converting an 8-bit pixel to half-precision gives exactly pixel/256 (0 for 0, positive sign), and converting a half float in [0, 1] back gives floor(256*value), 1.0 saturating to 255, so the round trip is the identity.",
     [I, S], "every pixel value, every half float in [0,1], each component, any stalls",
     "The tests display one picture; zero, subnormals and 1.0 are never checked.",
     ["litevideo/csc/rgb2rgb16f.py", "litevideo/csc/rgb16f2rgb.py"],
     [("leading-one detector, exponent bias", "PIX2PIXFDatapath / PIXF2PIXDatapath")], ["source endpoints"],
     "exhaustive enumeration of pixels and half floats against exact arithmetic, generated stalls",
     "Exhaustive per component; sampled stall patterns.")
prop("C07", "Half-float multiplication is exact up to truncation",
     "For non-negative finite half floats whose product is in range, the multiplier returns the exact product truncated to half precision, including zeros, subnormal operands and gradual underflow.",
     [I], "pairs of non-negative finite half floats, any neighbours in the pipeline",
     "floatmult_tb prints a handful of products.",
     ["litevideo/float_arithmetic/floatmult.py", "litevideo/float_arithmetic/common.py"],
     [("normalisation after multiply", "FloatMultDatapath")], ["FloatMult.source"],
     "generated operand pairs against an exact rational model", "Sampled pairs biased to boundaries; overflow is unspecified.")
prop("C08", "Half-float addition is exact up to truncation",
     "For non-negative finite half floats whose sum is in range, the adder returns the sum truncated to half precision with the smaller operand aligned by truncation, including zeros and subnormal operands; addition commutes.",
     [I], "pairs of non-negative finite half floats, any neighbours in the pipeline",
     "floatadd_tb prints a handful of sums.",
     ["litevideo/float_arithmetic/floatadd.py", "litevideo/float_arithmetic/common.py"],
     [("alignment and normalisation", "FloatAddDatapath")], ["FloatAdd.source"],
     "generated operand pairs against an exact rational model", "Sampled pairs biased to boundaries; overflow is unspecified.")
prop("C09", "TMDS encoding follows DVI 1.0 with bounded running disparity",
     "For every sequence of data bytes, control bits and data enables, each TMDS word sent is exactly the DVI 1.0 encoding: transition-minimised, DC-balanced from the running disparity of the words sent since the last blanking, and the four control tokens during blanking. All channels take the same fixed number of clocks, one word per clock.",
     [I, H], "any sequence of (byte, control, data enable)",
     "No test drives the encoder; disparity depends on the whole history of the line.",
     ["litevideo/output/hdmi/encoder.py"], [("XOR/XNOR choice, disparity counter", "Encoder")], ["Encoder.out"],
     "generated histories against a reference encoder written from the DVI 1.0 flow chart", "Sampled histories; all (disparity, byte) pairs reachable are driven.")
prop("C10", "TMDS decoding inverts encoding and recognises control tokens",
     "Every word an encoder can send for a byte decodes to that byte with data enable set, and each of the four control tokens decodes to its two control bits with data enable clear, the last control bits being held during data. Words, data and the valid flag come out together with the same latency, whatever precedes them.",
     [I, H], "all 1024 received words in any order; every byte with either disparity",
     "No test drives the decoder.", ["litevideo/input/decoding.py", "litevideo/input/common.py", "litevideo/output/hdmi/encoder.py"],
     [("XOR decode and token compare", "Decoding")], ["Decoding.output"],
     "exhaustive words and generated orders against a reference decoder; encoder-decoder round trip", "Exhaustive over words, sampled over orders.")
prop("C11", "The timing generator draws exactly the programmed raster",
     "For every programmed raster, each frame is vscan+1 lines of hscan+1 clocks; data enable is active for exactly hres pixels on exactly vres lines, and hsync and vsync are active exactly between their programmed start and end. Stalling the consumer only stretches time, new parameters are taken only at the end of a frame, and removing the parameters stops and restarts it from the first pixel.",
     [I, S, CFG], "every legal set of eight timing parameters, any stalls, any sequence of parameter sets",
     "The output tests run one tiny frame and look at nothing per clock.",
     ["litevideo/output/core.py"], [("h/v counters", "TimingGenerator")], ["TimingGenerator.source", "TimingGenerator.sink"],
     "generated parameter sets and stalls against a raster model", "Sampled small rasters (and parameter extremes).")
prop("C12", "Scan-out shows memory words in order, pixel k is word k",
     "With video enabled, the k-th active pixel of every frame shows word k from the programmed base address, no matter how slowly or irregularly the memory answers and the display accepts: pixels are neither skipped, repeated nor shifted, only delayed (in raw mode every clock that carries data carries the next word). Words are fetched ahead as far as the buffer was made deep, so that a silence of the memory of fewer words makes the display wait for none. Only addresses from base to base+length are read, and the underflow counter counts exactly the display clocks without data while enabled.",
     [S, I, CFG, H], "any memory latency and stalls, any clock ratio, any raster with matching length, on/off histories",
     "The core test runs one fixed memory for one frame without checking data.",
     ["litevideo/output/core.py"], [("DMA reader and timing joined on data enable", "VideoOutCore / DMAReader")],
     ["dram port commands", "VideoOutCore.source", "underflow CSRs"],
     "generated rasters, memories and schedules against a frame-buffer model", "Sampled schedules.")
prop("C13", "Frame parameters reach the scan-out coherently and in order",
     "The frame parameters written over the CSR bus cross to the video clock as whole sets: every set used was present in the registers at one instant, sets are used in the order they were present, and nothing is presented while video was never enabled. A change of the registers eventually takes effect as long as frames are consumed.",
     [H, S, CFG], "any order of register writes, enable toggles, consumption times and clock ratios",
     "No test writes the CSRs while the video clock runs at another rate.",
     ["litevideo/output/core.py"], [("asynchronous FIFO carrying the whole set", "Initiator")], ["Initiator.source"],
     "generated register-write histories over unrelated clocks", "Sampled histories.")
prop("C14", "Pixels, sync and data enable stay aligned up to the pads",
     "In each output mode (RGB, YCbCr 4:2:2, raw) the colour, data enable and syncs reaching the link driver at one clock belong to the same pixel of the scan-out: RGB bytes to their own colour, YCbCr words converted with the chroma phase starting at each line start, raw words to their three channels. VGA pads show the upper colour bits and active-low syncs.",
     [I, CFG, S], "any frame contents, rasters, output mode, device family, pad kind",
     "The tests never look at the driver's inputs.",
     ["litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/common.py"],
     [("timing delay equal to the conversion latency", "VideoOut")], ["driver sink", "VGA pads"],
     "generated frames against a colour/raster model, per mode and device", "Sampled frames.")
prop("C15", "HDMI output serialises each word least significant bit first",
     "Each clock's 10-bit word reaches its channel's serialiser with its bits in transmission order (bit 0 first), blue with the syncs on channel 0, green on 1 and red on 2, all channels in step; inverted pads get complemented bits. The clock channel toggles once per pixel.",
     [I, CFG], "any word sequence, each device family, each inversion choice, encoded or raw",
     "No test instantiates the serialisers.",
     ["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"], [("serialiser wiring", "S6/S7HDMIOutPHY")], ["serialiser primitive inputs"],
     "generated words pushed through models of the vendor serialisers and decoded again", "Trusts the models of OSERDES2/OSERDESE2/ODDR2.")
prop("C16", "Test patterns show the documented picture",
     "The colour-bar pattern cycles its eight colours, each lasting one eighth of the programmed width; the vertical-line pattern alternates white and black pixels; the dots pattern (even widths) alternates and swaps from line to line. The picture read is the same whatever the consumer's stalls, and also for a consumer that waits for a pixel to be offered.",
     [I, S], "any width, any back-pressure", "The pattern tests display one unstalled picture.",
     ["litevideo/output/pattern.py"], [("position counters advanced on accepted pixels", "pattern modules")], ["source endpoints"],
     "generated widths and stalls against a picture model", "Sampled widths and stalls.")
prop("C17", "Clock reprogramming commands and status reads work as documented",
     "Writing a pixel-clock command sends exactly its ten bits, least significant first, with the enable signal held over them, and reports busy until the enforced gap has passed; the go command pulses the enable alone. Every PLL register access reaches the PLL with its address, data and direction, and its ready flag clears when the access starts and sets when the PLL answers. The reset register holds the PLL in reset and the lock flags report its lock. The limits of the pixel clock announced to software as constants are those the clock generator is built for.",
     [H, I], "any sequence of register accesses and PLL answer times", "No test touches the clocking registers.",
     ["litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/input/clocking.py"],
     [("shift register and busy counter", "S6HDMIOutClocking")], ["DCM/PLL/MMCM primitive ports", "status CSRs"],
     "generated CSR access histories against a programming-interface model", "Sampled histories.")
prop("C18", "The terminal draws the character RAM with the documented VGA timing",
     "Each frame has the documented 640x480 VGA timing (800 clocks per line, 521 lines), and pixel (x, y) shows foreground or background colour of the cell at (x/8, y/16) according to that character's font row, with the VGA palette, black outside the picture.",
     [I, S], "any screen, font and attribute contents", "No test checks the terminal's pixels against its RAM.",
     ["litevideo/terminal/core.py"], [("fetch sequence in the eight clocks of a cell", "Terminal")], ["red/green/blue/hsync/vsync"],
     "generated RAM contents against a rendering model, whole frames", "Sampled contents; whole frames.")
prop("C19", "The terminal's bus writes exactly the addressed byte",
     "Every Wishbone access is acknowledged once, a write changes only the addressed byte of the character/font RAM, a read returns the last value written there, and the display shows the change from its next fetch on.",
     [H, I, S], "any sequence of bus accesses with any gaps", "The terminal test writes a fixed screen.",
     ["litevideo/terminal/core.py"], [("acknowledge and write enable registers", "Terminal")], ["Wishbone bus", "display"],
     "generated bus histories against a byte-array model", "Sampled histories.")
prop("C20", "Character alignment locks on control tokens and delivers aligned words",
     "When control tokens arrive eight times in a row at the same bit position, the receiver locks to it and from then on delivers exactly the transmitted words; it does not lock or move on fewer repetitions, and stays locked during data. This holds for every bit offset, and the reported position is the offset in use.",
     [I, H], "every bit offset, any words, any interrupted token runs", "No test drives a bit-shifted stream.",
     ["litevideo/input/charsync.py"], [("token search over ten positions, repetition counter", "CharSync")], ["CharSync.data/synced", "CSRs"],
     "generated bit streams against an alignment model", "Sampled streams, all ten offsets.")
prop("C21", "Channel alignment removes any skew within its depth",
     "For any skew between the three channels of less than the buffer depth, and lines and blankings of at least 16 words, the three outputs come within a few blankings to carry words sent at the same time and from then on lose or repeat no data word; the synchronised flag is then set and stays set. Between blankings it is set only while the outputs agree, and it falls when the channels' blankings disagree or a channel becomes invalid.",
     [I, H, S], "any skews, line and blanking lengths, resynchronisations", "No test skews channels.",
     ["litevideo/input/chansync.py"], [("per-channel buffers paused at control words", "ChanSync")], ["ChanSync.data_out*", "chan_synced"],
     "generated skewed lines against an alignment model", "Sampled skews and lines.")
prop("C22", "The word error counter counts exactly the bad words of a period",
     "The reported value is the number of received words in one counting period that are neither control tokens nor transition-minimised; it refers to a completed period (the word on which a period rolls over may go uncounted) and is updated only on request.",
     [I, H, S], "any word sequences, update times and clock ratios", "No test sends erroneous words.",
     ["litevideo/input/wer.py"], [("transition counter and period counter", "WER")], ["WER value CSR"],
     "generated word sequences with errors against a counting model", "Sampled; short periods.")
prop("C23", "Sync polarity is normalised and pixels stay aligned",
     "Whatever the polarity of the incoming syncs, the recovered hsync and vsync are active high relative to the level they had when blanking began, and red, green, blue, data enable and syncs come out aligned, one word per clock.",
     [I, H], "any line shapes and sync polarities", "No test drives syncs.",
     ["litevideo/input/analysis.py"], [("polarity latched when data enable ends", "SyncPolarity")], ["SyncPolarity outputs"],
     "generated rasters of either polarity against a model", "Sampled rasters.")
prop("C24", "Resolution detection reports the size of the picture received",
     "After a complete frame the reported width is the number of active pixels of the last line and the reported height the number of active lines of the last complete frame, and both are zero while the input is invalid.",
     [I, H, S], "any raster, changes of raster, validity drops, clock ratios", "No test drives the detection.",
     ["litevideo/input/analysis.py"], [("pixel and line counters", "ResolutionDetection")], ["hres/vres CSRs"],
     "generated rasters against a counting model", "Sampled rasters.")
prop("C25", "Frame extraction packs every active pixel once, in order",
     "Each frame captured delivers, starting with a word marked start-of-frame, the active pixels in order, first pixel of a word in the most significant part, converted to the configured format, and nothing from blanking or from pixels received while the input is not valid. Words are lost only when the FIFO overflows, which is always reported and cleared on request.",
     [I, S, CFG], "any frames, word widths, modes, consumer stalls", "The input tests display one picture.",
     ["litevideo/input/analysis.py"], [("packing counter and FIFO", "FrameExtraction")], ["FrameExtraction.frame", "overflow CSR"],
     "generated frames against a packing model", "Sampled frames.")
prop("C26", "Input DMA writes whole frames only into slots handed to it",
     "Each frame accepted is written, in order and completely, to consecutive addresses of one slot that software had marked loaded, never beyond the programmed frame size; then that slot becomes pending with the address reached and raises its event. Frames arriving with no loaded slot are dropped as a whole, and no slot is written before it is loaded again. The DMA keeps taking words as long as the memory does.",
     [H, S, CFG], "any frames, slot handling histories, memory stalls, number of slots", "The DMA test does not check memory.",
     ["litevideo/input/dma.py"], [("slot array and transfer state machine", "DMA")], ["dram port writes", "slot CSRs", "events"],
     "generated slot and frame histories against a memory and slot model", "Sampled histories.")
prop("C27", "The EDID slave answers exactly its address with its contents",
     "An I2C master reading the EDID at any offset, with any number of bytes and repeated starts, gets the stored bytes in order (wrapping at the end), as software last wrote them over the CSR bus; the slave acknowledges only its own address (and the offset that follows it; further bytes written are ignored) and never drives the bus otherwise or while hot-plug is disabled. The default contents are valid EDID blocks (header, extension count and checksums).",
     [H, I, S], "any transaction sequences, bit rates within the sampling limit, other addresses on the bus", "The EDID test reads one fixed sequence.",
     ["litevideo/input/edid.py"], [("bit state machine", "EDID")], ["scl/sda pads"],
     "generated I2C transactions by a model master against the byte array", "Sampled transactions.")
prop("C28", "Data capture delivers the received bits in order",
     "The 10-bit words delivered by each channel contain exactly the bits received at the pads, in order, none lost or repeated, with inverted pads undone; delay commands reach the delay elements once each, and the phase flags reflect the accumulated early/late decisions since the last reset.",
     [I, H, CFG], "any bit stream, command histories, each device family and inversion", "No test drives the capture.",
     ["litevideo/input/datacapture.py"], [("5:10 and 8:10 gearboxes, phase accumulator", "S6/S7DataCapture")], ["DataCapture.d", "delay primitive ports", "phase CSR"],
     "generated bit streams through models of the vendor primitives", "Trusts the models of ISERDES/IDELAY.")
prop("C29", "A transmitted picture is received unchanged end to end",
     "Pixels sent by an HDMI transmitter with any legal raster, sync polarity, channel skew and bit offset are recovered by the receiver, after lock, as the same pixels in the same order with the same frame boundaries, and stored by its DMA. Until all three channels are aligned, no resolution is measured and nothing is stored.",
     [I, H, CFG], "any pictures, rasters, skews, offsets, DVI or HDMI framing", "No test connects a transmitter and a receiver.",
     ["litevideo/input/__init__.py", "litevideo/output/hdmi/encoder.py"], [("receive chain", "HDMIIn")], ["HDMIIn outputs", "DMA writes"],
     "generated pictures through a transmitter model into the whole receiver", "Sampled pictures.")
prop("C30", "Every supported configuration builds and exposes its registers",
     "Every combination of device family, mode, memory width, slot count, pad features and clocking option that the constructors accept as supported elaborates to a complete design with its registers accessible and exactly the DMA slots asked for (what is written to a storage register is read back), and unsupported output modes, memory widths, devices, clock options and memory contents sizes are refused.",
     [CFG], "all supported configurations of the input, output and terminal cores", "The tests elaborate a few configurations.",
     ["litevideo/input/__init__.py", "litevideo/output/__init__.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/input/dma.py", "litevideo/terminal/core.py"],
     [("constructor options", "HDMIIn / VideoOut / Terminal")], ["generated Verilog", "CSR lists"],
     "enumeration of configurations, elaborated to Verilog", "Enumerates the listed options.")
prop("C31", "HDMI framing separates video from data islands",
     "With HDMI framing, data enable is active exactly for the pixels between a video guard band and the next control word, never during data islands or guard bands, and in DVI mode it follows the plain data enable; either way it is aligned with the pixel it describes. The flags for a decryption engine mark exactly the island words (guard bands included), the words between an island's guard bands, and the pixels; each such island word is decoded to the four bits it stands for.",
     [I, H], "any sequence of control periods, preambles, data islands and video periods; both modes", "No test drives HDMI framing.",
     ["litevideo/input/decoding.py", "litevideo/input/__init__.py"], [("framing state machine", "DecodeTERC4")], ["DecodeTERC4.de_o"],
     "generated HDMI frames against a framing model", "Sampled frames.")

prop("C32", "With a genlock source the scan-out follows that source",
     "With a genlock source, the data enable and syncs given out are the source's, clock for clock. Enabled during vertical blanking and with a memory that keeps up, the k-th active pixel after each vertical sync shows the word delay_base+k of one programmed buffer, and only words base+delay_base to base+length-1 are read. At most one buffer is read per frame of the source, from its vertical sync on. A new buffer, or disabling video, takes effect within the few frames of parameters already queued (RGB and YCbCr 4:2:2 modes; raw mode is not covered).",
     [I, H], "any source raster, buffer, delay and memory latency; buffer changes and disabling at any time", "No test uses genlock.",
     ["litevideo/output/core.py"], [("WAIT_SOF and offset", "DMAReader, genlock variant"), ("genlock wiring", "VideoOutCore")], ["VideoOutCore.source", "memory reads"],
     "generated genlock sources, buffers and memory latencies against a frame model", "Sampled rasters and histories.")

prop("C33", "Derived clocks have their documented ratios, and resets follow the lock",
     "While locked, every clock derived from a pixel clock runs at exactly its documented multiple of it (pix2x, pix5x, pix10x, pix1p25x, split and shared copies, the strobe buffer's and a VGA clock pad's included), with common edges, and the receiver's pixel clock rises with the received clock, inverted pads undone. Released from reset and fed, every PLL locks. While a PLL is unlocked its resettable domains are held in reset and the receiver's locked flag reads 0; once locked they are released and it reads 1.",
     [I, H], "any clocking, input period, lock time and history of resets, input and lock losses", "Clocking is made of vendor primitives no test simulates.",
     ["litevideo/input/clocking.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py"], [("PLLs and buffers", "S6Clocking, S7Clocking, S6HDMIOutClocking, S7HDMIOutClocking")], ["clock domains, their resets, locked, pads.clk"],
     "generated histories over models of PLLs and clock buffers, clocks compared edge by edge", "Primitives are models; analogue limits (VCO range, jitter) are not judged.")
prop("C34", "A picture shown by an output is captured unchanged by an input",
     "With the pads of a video output wired to those of a receiver, of any two supported families, each frame the receiver's DMA captures is, after lock, one whole picture of the output's memory: every pixel, in place, with the size that was programmed, as far as the two colour formats can represent it (RGB and YCbCr 4:2:2 outputs). When software shows a new buffer, frames change from the old to the new picture as a whole, never back, and within the frames already queued.",
     [I, H, CFG], "any picture, raster, pair of families, modes and memory widths, inverted pairs, bit offsets, skews and history of buffer changes",
     "No test connects an output to an input; each side's tests, where there are any, share that side's own assumptions.",
     ["litevideo/output/__init__.py", "litevideo/output/core.py", "litevideo/output/driver.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/input/__init__.py", "litevideo/input/dma.py"],
     [("scan-out to the pads", "VideoOut"), ("pads to memory", "HDMIIn")], ["VideoOut pads and memory port", "HDMIIn pads, registers and memory port"],
     "round trip: the output's pad bits, recorded, drive the input, and captured frames are compared with the pictures in the output's memory",
     "Vendor primitives are models; both memories keep up with the pixel rate; raw mode is left out (the reader has a clock without data in each frame).")

prop("C35", "A reset brings every component back to how it was at power-up",
     "After all clock domains of a component were reset, whatever it had received before, it answers every further input exactly as one that was just powered up: handshakes, valid data, detected sizes, lock flags, register contents, bus answers and the positions of counters and state machines (memories' contents excepted). It holds for each converter, the TMDS encoder and decoder, the scan-out core with and without genlock, the patterns, character alignment, error counting, sync recovery, resolution detection, frame extraction, the capture DMA, the EDID slave and the terminal.",
     [I, H, CFG], "any inputs and register accesses before the reset and after it, any clock ratios and any time and length of the reset", "The tests never reset anything.",
     ["litevideo/output/core.py", "litevideo/input/analysis.py", "litevideo/input/dma.py", "litevideo/input/edid.py", "litevideo/terminal/core.py"],
     [("registers and state machines", "every Module with sync statements")], ["every output and register of each component"],
     "metamorphic relation: a component reset after generated inputs against one powered up at the time of the reset, clock for clock",
     "Sampled; the character buffers of channel alignment, the vendor primitives and data next to a low valid are not compared.")

prop("C36", "Inputs and outputs placed in one design work as they do alone",
     "In a design with several inputs and outputs of either family, in any order and whatever the others receive, every output still scans out the picture in its own buffer and every input still captures what its own cable carries, under its own registers and with its own clocks; the same holds for a Spartan-6 output that takes its clocks from another one.",
     [I, H, CFG], "any pictures, rasters, offsets, skews, buffer changes and register accesses; any arrangement of inputs and outputs as named submodules of one design",
     "The tests build one component at a time.",
     ["litevideo/output/__init__.py", "litevideo/output/driver.py", "litevideo/output/core.py", "litevideo/output/hdmi/s6.py", "litevideo/output/hdmi/s7.py", "litevideo/input/__init__.py", "litevideo/input/clocking.py", "litevideo/input/analysis.py"],
     [("an output among others", "VideoOut"), ("an input among others", "HDMIIn")], ["VideoOut pads and memory port", "HDMIIn pads, registers and memory port"],
     "round trip, as for C34, with one part of a larger design under test and noise on the registers, wires and memories of the others",
     "Three parts a design in the quick tier, up to five in the thorough one; vendor primitives are models; raw mode is left out.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    checks, na = [], []
    for p in P:
        if os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py")):
            checks.append({"property": p["id"], "quick_cmd": "./check " + p["id"],
                           "thorough_cmd": "VERIF_TIER=thorough ./check " + p["id"],
                           "technique": TECH + p["technique"], "level": "exploration",
                           "level_note": p["note"] + " " + SIM})
        else:
            na.append({"property": p["id"], "reason": "no check is built for it yet"})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed in /repo: the checks elaborate the Migen modules imported from /repo's working tree."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
