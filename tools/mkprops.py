#!/usr/bin/env python3
"""Source of /verif/properties.jsonl: run to regenerate it."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=list(files),
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

D, L, H, PA, I, U = ("src/decoder.rs", "src/decoder/lossless.rs", "src/huffman.rs", "src/parser.rs", "src/idct.rs", "src/upsampler.rs")
WI, WM, WT, WR, A, S = ("src/worker/immediate.rs", "src/worker/mod.rs", "src/worker/multithreaded.rs", "src/worker/rayon.rs", "src/arch/mod.rs", "src/arch/ssse3.rs")

p("C01", "No input and no call sequence makes the decoder panic or abort",
  "For every byte stream delivered by the reader and every sequence of public calls on a decoder (metadata, scaling, colour override, buffer limit, decoding, repeated in any order, also after errors), each call returns normally with a value or an error. No call panics, overflows an integer in a checked build, overflows the stack or aborts the process, in any supported feature configuration (64-bit targets, memory for the declared frame available).",
  ["inputs", "histories", "configurations"],
  "all byte strings x all API call sequences x {threaded, rayon} x {SIMD, portable} x {checked arithmetic, release}",
  "crashtest decodes 111 fixed files once each with a single decode(); it never mixes calls, overrides the colour transform, scales, retries after an error, or uses frames near the 65535 limit.",
  [D, L, H, PA, I, U, WI, WM, WT, WR, S],
  [("header validation before use", PA), ("bounds-limited Huffman and coefficient indexing", H), ("wrapping arithmetic in IDCT and DC prediction", I), ("asserts on worker/plane geometry", WI)],
  observe=["return value / unwind of every public call", "process exit status"])

p("C02", "No memory error or undefined behaviour, SIMD kernels included",
  "Whatever the input, image geometry, subsampling, scale factor and colour model, decoding never reads or writes outside the memory it owns, never reads uninitialised memory and has no other undefined behaviour, including in the code that uses processor-specific instructions.",
  ["inputs", "configurations"],
  "all inputs; all row widths, strides, sampling factors and scale factors that reach the unsafe kernels",
  "The tests run without any sanitizer, so an out-of-bounds access that lands in mapped memory is invisible to them.",
  [S, A, I, D], [("length assertions ahead of raw loads and stores", S), ("unsafe confined to src/arch and two call sites", "src/lib.rs")],
  observe=["AddressSanitizer reports", "Miri diagnostics"])

p("C03", "A decoded buffer always matches the reported dimensions and format",
  "Whenever decoding succeeds, the returned buffer holds exactly width x height x bytes-per-pixel bytes of the reported image information. The reported width and height are the frame header's (or those returned by the last scaling request), the pixel format follows from component count and precision (1: 8 or 16 bit luminance, 3: RGB, 4: CMYK), and the coding process is that of the frame header.",
  ["inputs", "histories", "configurations"],
  "all streams that decode, all geometries 1..65535, all component counts, precisions and scale requests",
  "reftest compares lengths on ~45 images, nearly all of moderate size, none with lossless precision below 8, none lossless and scaled.",
  [D, L, PA, U], [("output size derivation", PA), ("compute_image crop / resize", D), ("lossless sample packing", L)],
  state=[("frame.output_size", "dimensions of the output", PA)], observe=["Decoder::info", "length of decode() result", "Decoder::scale result"])

p("C04", "DCT blocks are reconstructed as the ideal inverse transform of the coded data",
  "For every valid 8-bit Huffman-coded DCT image, each decoded sample of a component is the ideal (real-valued) inverse DCT of its dequantised coefficients plus 128, clamped to 0..255, to within 1 level of its rounded value, for 8-bit and 16-bit quantisation tables and coefficients in the range an 8-bit encoder produces. Samples land at their raster position for every image width and height.",
  ["inputs", "configurations"],
  "all coefficient arrays, quantisation tables, Huffman tables and dimensions; portable and SIMD kernels; serial and parallel workers",
  "Three IDCT unit tests use one block each, and the reference images share a handful of encoders and tables.",
  [D, H, I, S, WI, WR, WT], [("Huffman decoding, zig-zag placement, dequantisation", D), ("8x8 IDCT portable and SSSE3", I), ("block placement in the plane", WI)],
  observe=["decode() bytes of single-component images"])

p("C05", "How the coefficients are coded does not change the picture",
  "Two valid streams that carry the same frame parameters, quantisation tables and quantised DCT coefficients decode to byte-identical pixels, no matter how the coefficients are coded: baseline, extended sequential or progressive, any grouping of components into scans, any spectral-selection and successive-approximation script, any restart interval, any legal Huffman tables.",
  ["inputs", "configurations"],
  "all coefficient sets x all valid scan scripts, interleavings, restart intervals and Huffman tables",
  "The tests compare each file with one stored picture; no file is decoded in two codings, and scan scripts, restart intervals and code tables are those of a few encoders.",
  [D, H, WI, WR, WT], [("progressive first/refinement passes and EOB runs", D), ("non-interleaved MCU geometry", D), ("restart handling", D), ("Huffman lookup tables and slow path", H)],
  state=[("coefficients", "progressive coefficient store", D), ("coefficients_finished", "bitmask of completed coefficients per component", D)],
  observe=["decode() bytes"])

p("C06", "Lossless images are reproduced bit for bit",
  "For every valid Huffman-coded lossless image of 2 to 16 bit precision (without subsampling when it has several components), decoding returns exactly the encoded samples (shifted left by the point transform), for predictors 1 to 7, any point transform, any legal restart interval, one or several components, in one interleaved scan or one scan per component. Samples of up to 8 bits are returned as bytes, larger ones as native-endian 16-bit words.",
  ["inputs", "configurations"],
  "all sample arrays, predictors, precisions, point transforms, restart intervals, component counts and scan groupings",
  "Eleven stored lossless files cover the predictors at one or two precisions; none uses restarts, several scans, a point transform together with a predictor, or precisions below 8; the RGB lossless file is missing.",
  [L, PA, H], [("difference decoding modulo 2^16", L), ("predictor selection and row/column start rules", L), ("sample packing", L)],
  observe=["decode() bytes"])

p("C07", "Colour model is identified by the documented rules and converted correctly",
  "The colour model of 3- and 4-component DCT images follows from component identifiers, the JFIF marker and the Adobe marker by the documented precedence, unless the caller overrides it, in which case the override decides. YCbCr is converted by the BT.601 full-range equations and YCCK likewise with inverted K, CMYK is returned inverted, and RGB or untransformed data is returned unchanged and interleaved, each output value within 1 level of the ideal result; an override that does not fit the component count is an error, as are big-gamut models.",
  ["inputs", "configurations"],
  "all sample values, all combinations of component ids, JFIF/Adobe markers and overrides, all widths (vector body and scalar tail)",
  "The tests have one or two files per colour model and never call the override.",
  [D, S, PA], [("colour model decision", D), ("line converters", D), ("SSSE3 YCbCr converter", S), ("APP0/APP14 parsing", PA)],
  observe=["decode() bytes / error"])

p("C08", "Subsampled components are upsampled to the right place with the right filter",
  "For every combination of integer-ratio sampling factors (1 to 4) and every image size, each output pixel uses the component sample that covers it: components at full resolution are copied, components subsampled by exactly two in an axis are interpolated with the centred triangle filter in that axis pair, other integer ratios are replicated, each rounded to a nearest level. Non-integer ratios are refused as unsupported.",
  ["inputs", "configurations"],
  "all sampling-factor combinations, all widths and heights (including 1-pixel edges), all sample values",
  "The tests' images use 4:4:4, 4:2:2 and 4:2:0 almost only, at sizes where edge handling is rarely visible within the tolerance of 3.",
  [U, PA, WR, WM], [("upsampler choice", U), ("row/column filters and edge rules", U), ("component size derivation", PA)],
  observe=["decode() bytes", "decode()/read_info error"])

p("C09", "Scaled decoding picks the documented factor and yields the reduced image",
  "A scaling request selects the smallest factor of 1/8, 1/4, 1/2 and 1 whose result is at least the requested size in at least one axis, reports the dimensions ceil(size x factor), and decoding then returns the picture whose samples are the reduced-size inverse DCT of the low-frequency coefficients within 1 level (1/1: as unscaled). The last request before decoding decides, and lossless images are delivered at full size.",
  ["inputs", "histories"],
  "all image sizes, requests, sampling factors, coding processes, and request sequences",
  "Four scale sizes of one RGB image are compared with a stored picture.",
  [I, D, PA, WI, WR], [("factor choice", I), ("4x4, 2x2, 1x1 IDCT", I), ("size update", PA)],
  observe=["scale() result", "info()", "decode() bytes"])

p("C10", "Parallel and serial decoding give identical pixels under every schedule",
  "The decoded bytes (or the error) for a given input are the same whether work is done by rayon pools of any size, by per-component threads or serially, in release or checked builds, on any number of repetitions, and while any number of other decoders run at the same time.",
  ["schedules", "configurations", "inputs"],
  "all thread schedules, pool sizes, and numbers of concurrent decoders",
  "The rayon tests only check that decoding finishes in one- and two-thread pools; they never compare output, and each feature set is tested on its own.",
  [WR, WT, WM, WI, D], [("per-row disjoint split of the result buffer", WR), ("one channel and one thread per component", WT), ("shared WorkerScope", WM)],
  state=[("offsets", "next free position of each component's plane", WR)], observe=["decode() bytes/error per run"])

p("C11", "Accelerated and portable builds agree, and the portable build is reproducible",
  "For every valid DCT image of encoder-range coefficients, builds that use processor-specific instructions and the platform-independent build decode to the same dimensions and to samples that differ by at most 2 levels before and 4 levels after colour conversion. The platform-independent build's output is byte-identical across optimisation levels, threading models and target architectures.",
  ["configurations", "inputs"],
  "all valid images x {SSSE3, portable} x {debug, release} x {x86-64, big-endian 64-bit, 32-bit}",
  "Each feature set is only compared with stored pictures at tolerance 3; two builds are never compared with each other.",
  [S, A, I, D], [("SSSE3 IDCT and colour kernels", S), ("portable kernels", I), ("forbid(unsafe_code)", "src/lib.rs")],
  observe=["decode() bytes per build"])

p("C12", "Reader delivery does not matter and no byte past the end is taken",
  "Pixels, metadata and errors are a function of the byte sequence only: short reads, one-byte reads and interrupted reads change nothing. A successful decode consumes the reader exactly up to and including the end-of-image marker, and reading metadata consumes nothing beyond the frame header.",
  ["inputs", "schedules", "fault_sequences"],
  "all partitions of the byte stream into reads, all placements of interrupted reads",
  "The tests read from files and byte slices that always deliver everything asked for.",
  [D, H, PA, "src/lib.rs"], [("byte-wise read_exact", "src/lib.rs"), ("marker held back by the bit reader", H), ("bounded skip of segments", PA)],
  observe=["reads issued to the reader", "decode() result"])

p("C13", "Truncation and read failures are always reported as I/O errors",
  "If the stream ends, or the reader starts failing, before the end-of-image marker of an otherwise valid image, decoding returns an I/O error that carries the reader's error kind (unexpected end for truncation) and never reports success; the same holds for reading metadata when the failure precedes the end of the frame header. A failure after the bytes that are needed has no effect.",
  ["fault_sequences", "inputs", "crash_points"],
  "every byte position of every valid stream as truncation or failure point, every error kind",
  "No test truncates a valid file or injects a read error.",
  [D, H, PA, "src/error.rs", "src/lib.rs"], [("? propagation of read errors", D), ("skip_bytes length check", PA), ("From<io::Error>", "src/error.rs")],
  observe=["error variant and kind", "Error::source"])

p("C14", "Embedded metadata is returned exactly as stored",
  "After a successful decode, the Exif block (from its TIFF header on), the XMP packet and the ICC profile are returned byte for byte as embedded, wherever their segments stand between the headers and scans of the image, and are absent when not embedded or when the identifying signature does not match. Non-empty ICC chunks are joined in sequence order whatever their order in the file (1 to 255 chunks), and an incomplete, duplicated, zero-numbered or inconsistently counted set yields no profile at all.",
  ["inputs", "histories"],
  "all payloads, segment orders, chunk counts and permutations, and near-miss signatures",
  "Five ICC files with up to a few chunks and one file each for Exif and XMP.",
  [D, PA], [("APP1/APP2 parsing", PA), ("ICC assembly", D)],
  state=[("icc_markers", "chunks in file order", D)], observe=["exif_data", "xmp_data", "icc_profile"])

p("C15", "The decoding buffer limit is enforced before memory is spent",
  "With a limit set, decoding succeeds only if the size in bytes of the output it returns is within the limit, and an image within the limit decodes exactly as without one. An image over the limit is refused with a format error, without memory in proportion to the image being allocated first.",
  ["inputs", "histories"],
  "all limits, image sizes, formats, coding processes and scale requests",
  "No test calls the limit setter.",
  [D, L], [("limit comparison", D)], state=[("decoding_buffer_size_limit", "caller's limit", D)],
  observe=["decode() result", "peak heap use of the call"])

p("C16", "Memory use is bounded by the frame area plus the input size",
  "The peak heap memory of any call, on any input, stays below a fixed constant plus a fixed multiple of the frame's padded area per component plus a fixed multiple of the bytes read; streams without a scan never allocate in proportion to the declared dimensions, and everything but the results kept for the caller is released when the decoder is dropped.",
  ["inputs", "histories"],
  "all inputs, valid or hostile, and all call sequences",
  "The tests never measure memory.",
  [D, L, PA, WI, WR, WT], [("segment buffers limited by 16-bit lengths", PA), ("plane and coefficient sizing from block geometry", D)],
  observe=["allocator events (peak and residual bytes)"])

p("C17", "Every call finishes after bounded work",
  "Every public call terminates: the number of read operations it issues is bounded by a small multiple of the bytes the reader still holds plus a constant, it stops at once when the reader reports end of data, and its processing is bounded by the number of coded blocks the frame can hold times the number of scans read. No call deadlocks, whatever the size of the thread pool it runs in.",
  ["inputs", "schedules", "configurations"],
  "all inputs (garbage, endless fill bytes, endless restart markers, empty entropy data), all pool sizes and nesting",
  "The rayon tests try three pool set-ups on valid files; no test has an adversarial reader.",
  [D, H, PA, WR, WT], [("zero fill after a marker", H), ("marker scan stops at end of data", D), ("in-place rayon scope", WR)],
  observe=["read calls per case", "CPU time and blocked state of every thread per case"])

p("C18", "Malformed streams are rejected, never decoded to arbitrary pixels",
  "A stream that violates a structural rule of the format the decoder relies on (missing or repeated start, wrong segment length, undefined or duplicate component, out-of-range sampling factor, table id, precision, spectral or approximation parameter, over-subscribed or missing Huffman table, zero quantiser, missing quantisation table, restart marker missing where one is due, out of sequence or outside a scan, undecodable code, end before the frame header, before any scan, or, in sequential and lossless images, before every component has data) makes decoding return a format error, and reading the header alone too where the fault lies in or before the frame header.",
  ["inputs"],
  "every rule x every valid carrier stream x every violating value and position",
  "crashtest ignores the result of decoding: a test passes whether a broken file is refused or accepted.",
  [PA, D, H, L, "src/marker.rs"], [("segment parsers", PA), ("table presence checks", D), ("code table construction", H)],
  observe=["error variant"])

p("C19", "Valid but unsupported features are reported as such",
  "A stream that is well formed but uses a feature outside the supported set (hierarchical or differential frames, arithmetic coding, 12-bit DCT samples, component counts other than 1, 3 and 4, height defined later, non-integer subsampling, lossless components with sampling factors other than 1 in multi-component images, big-gamut colour) makes decoding, and reading metadata where the header shows it, return the matching unsupported-feature error, never success, another feature or a format error.",
  ["inputs"],
  "every unsupported feature x every carrier stream and parameter value",
  "No test checks an unsupported-feature error.",
  [D, PA, U, "src/error.rs"], [("frame header checks", D), ("upsampler choice", U)],
  observe=["error variant and payload"])

p("C20", "Calls compose: metadata, scaling and decoding orders agree",
  "Image information is absent until reading metadata or decoding has reached a supported frame header and from then on changes only through scaling; reading metadata is idempotent and takes no more input once it has succeeded. Decoding after any sequence of metadata reads, information queries and scale requests gives the pixels and metadata of decoding directly with the last scale request, and decoders never influence one another.",
  ["histories", "inputs"],
  "all sequences of public calls on one or several interleaved decoders",
  "One test reads the info of one file before decoding it.",
  [D, PA], [("early return of read_info once the frame is known", D), ("update_idct_size", PA)],
  state=[("frame", "parsed frame header", D)], observe=["results of every call in the history"])

p("C21", "Tolerated deviations do not change the picture",
  "Deviations the decoder documents as tolerated leave pixels unchanged: fill bytes before markers, stray bytes between segments, comments and unknown application segments anywhere among the headers, a final restart marker after the entropy-coded data, stray bytes after a scan's data, padding bits of either value, 16-bit quantisation tables, empty table segments, and motion-JPEG frames that omit the standard Huffman tables.",
  ["inputs"],
  "all placements and contents of the tolerated deviations in all valid carrier streams",
  "A few stored files show one instance each.",
  [D, H, PA], [("marker scanning", D), ("default MJPEG tables", H), ("segment skipping", PA)],
  observe=["decode() bytes"])

p("C22", "Unfinished progressive images show exactly what has been received",
  "When a progressive image ends regularly after at least one scan but before all coefficient bits of a component have been sent, decoding succeeds and renders each such component from precisely the coefficient bits received (missing coefficients zero), the same pixels as a sequential image with those coefficients; components already complete are unaffected.",
  ["inputs", "crash_points"],
  "every valid scan script cut after any scan, each component at its own stage of completion",
  "Three stored files show partial progressive images.",
  [D, WI, WR, WT], [("per-component completion mask", D), ("rendering of unfinished components", D)],
  state=[("coefficients_finished", "bitmask of completed coefficients per component", D)], observe=["decode() bytes"])

p("C23", "Worker threads never outlive, leak from, or are corrupted by a decode",
  "After a decode ends - successfully, with an error, or by a panic of the caller's reader - the threads it started end without further action, and later decodes are unaffected. Where the decoder starts one thread per component, failure to start one is an I/O error, not a panic. The number of threads alive does not grow with the number of images decoded.",
  ["schedules", "fault_sequences", "histories"],
  "all failure points of the reader, all interleavings of worker start, work and teardown",
  "No test observes threads or makes a decode fail half-way in a multi-threaded configuration.",
  [WT, WR, WM], [("channel hang-up ends the worker", WT), ("scoped rayon tasks", WR)],
  observe=["/proc/self/task over time", "result of the next decode"])

p("C24", "NEON and WebAssembly kernels agree with the portable code",
  "On AArch64 with the NEON feature and on WebAssembly with SIMD, decoded samples differ from the portable build by at most 2 levels before and 4 levels after colour conversion, and the kernels access only memory they own.",
  ["configurations", "inputs"],
  "all valid images on those targets",
  "The code is not compiled on x86-64, where the tests run.",
  ["src/arch/neon.rs", "src/arch/wasm.rs"], [("NEON kernels", "src/arch/neon.rs"), ("simd128 kernels", "src/arch/wasm.rs")],
  observe=["decode() bytes per build"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
