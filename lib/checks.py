"""The registered checks: which harness runs decide which property."""
CHECKS = {}

def add(pid, rule, runs, level="exploration", technique="", note="", assumptions=(), require=(), **kw):
    CHECKS[pid] = dict(rule=rule, runs=runs, level=level, technique=technique, note=note, assumptions=list(assumptions), require=list(require), **kw)

SAN = "AddressSanitizer + UndefinedBehaviorSanitizer"

add("P02", "random histories of 5-60 operations over four string/array handles that share storage; non-trivial: several handles and operation kinds are mixed in every history; distinct = distinct (operation, handle, size) sequences",
    [dict(harness="containers.cpp", mode="P02", quick=400000, thorough=6000000)],
    technique="online history monitor: every public answer compared with a std::vector/std::string model after each operation, under " + SAN,
    note="Samples histories; sizes up to about 1500 items, item types of every array type. Insert positions beyond the size are a precondition and are not generated.",
    require=["string ops", "array ops", "object array ops"])
add("P03", "random histories of 5-50 operations over four bit set handles, in five index profiles (small, 20000, whole range, last 2000 indexes, segment borders); distinct = distinct (operation, indexes) sequences",
    [dict(harness="containers.cpp", mode="P03", quick=120000, thorough=8000000)],
    technique="online history monitor against an interval-set model under " + SAN,
    note="Samples histories; the whole 32-bit index space is reachable. The combine API is not implemented in this version.",
    require=["bit set ops"])
add("P04", "random histories of 5-45 operations over four bit array handles up to about 4000 bits; distinct = distinct (operation, indexes, size) sequences",
    [dict(harness="containers.cpp", mode="P04", quick=500000, thorough=8000000)],
    technique="online history monitor against a std::vector<bool> model under " + SAN,
    note="Samples histories; sizes up to about 4000 bits.", require=["bit array ops"])
add("P01", "random histories of 6-36 copies, moves, swaps, passes through variants and arrays and mutations over four handles of one object type (13 types); distinct = distinct (type, step, handles) sequences",
    [dict(harness="values.cpp", mode="P01", quick=300000, thorough=6000000)],
    technique="online history monitor: after every step the value of every handle is compared with the value the same history yields on freshly built, never shared objects (differential oracle), plus byte digests of the handles that were not touched, under " + SAN,
    note="The reference value comes from the same code run on unshared objects, so a defect that is independent of sharing is left to P02-P09. Default settings of moved-from variants and stroke options are not compared.",
    require=["mutations", "self-aliased mutations", "rejected mutations"])
add("P07", "random histories of 5-60 operations over three gradients, or 5-50 operations over three patterns; distinct = distinct (operation, size, index) sequences",
    [dict(harness="values.cpp", mode="P07", quick=400000, thorough=8000000)],
    technique="online history monitor against a stop-list / field model under " + SAN,
    note="The sign of zeros in transforms is not compared.", require=["gradient ops", "pattern ops"])
add("P08", "random histories of operations over three feature setting and variation setting handles; distinct = distinct (operation, tag, value) sequences",
    [dict(harness="values.cpp", mode="P08", quick=400000, thorough=8000000)],
    technique="online history monitor against std::map under " + SAN, require=[])
add("P09", "four random variant pairs per case (kinds and edge values of every numeric type), and for every 16th block a sweep over all (alpha, component) byte pairs; distinct = distinct (kinds, values)",
    [dict(harness="values.cpp", mode="P09", quick=400000, thorough=8000000)],
    technique="online monitor: every conversion and equality compared with exact integer / rational arithmetic, under " + SAN,
    note="Equality between different color types is not specified and not checked.", require=["variants", "color conversions"])
add("P05", "random histories of 5-60 operations (building, arcs, ranges, adding, reversing, transforming, fitting, removing, all geometry types) over three path handles that share storage; distinct = distinct (operation, handle, argument, size) sequences",
    [dict(harness="paths.cpp", mode="P05", quick=150000, thorough=8000000)],
    technique="online history monitor: commands and vertices compared after each operation with a vertex-list model in long double arithmetic, under " + SAN,
    note="Samples histories. Arc and conic approximations are judged against the exact curve with the documented tolerance. What BLPath does with a reversed, irregular command stream isn't specified and isn't generated.",
    require=["path ops"])
add("P06", "random path histories as in P05, queried on the way and at the end: info flags, both boxes, figure ranges, last and closest vertices, about 12 points x 2 fill rules per path, equality; distinct = distinct histories",
    [dict(harness="paths.cpp", mode="P06", quick=50000, thorough=3000000)],
    technique="online monitor: every answer compared with exact curve extrema and winding numbers computed by an independent long double oracle, under " + SAN,
    note="Hit tests within 0.2% of the path extent of the outline are not judged. Irregular command streams are only watched for memory errors.",
    require=["boxes", "hit tests", "hit tests inside", "closest vertex"])
add("P38", "random sequences of matrix operations and random matrices (regular, singular, huge, non-finite) with arrays of up to 300 points at any 8-byte alignment; distinct = distinct (operations, arguments)",
    [dict(harness="paths.cpp", mode="P38", quick=400000, thorough=20000000)],
    technique="online monitor: every product, inverse and mapped point compared with long double algebra within a bound on rounding, at several CPU feature levels, under " + SAN,
    note="Rounding bounds are relative to the magnitude of the terms that are summed.", require=["matrix ops", "inversions", "mapped points", "singular"])
add("P12", "random deflate/zlib streams (stored, static and dynamic blocks with arbitrary complete codes up to 15 bits, all lengths and distances up to 32768), each decoded whole, byte by byte, in small and in large pieces into differently sized buffers, plus 3 truncations and 6 damaged variants; distinct = distinct streams",
    [dict(harness="deflate.cpp", mode="P12", quick=60000, thorough=5000000, libs="-lz")],
    technique="online monitor: output compared with the generator's own expansion, damaged streams judged by zlib, input pieces and output buffers exactly sized on the heap, under " + SAN,
    note="Samples streams of up to about 300 kB of output. HLIT/HDIST beyond the format's limits are tolerated as libdeflate does. Only the 64-bit decoder can run here.",
    require=["valid streams", "dynamic blocks", "truncated streams", "damaged, rejected", "damaged but valid", "damaged, incomplete"])
add("P13", "random inputs (constant, random, repetitive, text-like, far matches) of 1 byte to 700 kB x 13 levels x raw/zlib; distinct = distinct (level, format, input)",
    [dict(harness="deflate.cpp", mode="P13", quick=16000, thorough=1000000, libs="-lz")],
    technique="online monitor: zlib inflates each compressed stream and verifies its Adler-32, output buffers have exactly the announced size under AddressSanitizer; checksums compared with zlib and a byte-wise definition",
    note="Samples inputs. A compressor given a buffer smaller than the announced bound is a precondition violation and isn't exercised.",
    require=["streams", "checksums"])

CODEC = dict(harness="codecs.cpp", libs="-lz", wraps=("malloc",))
add("P14", "random images (1xN to 300x300, three formats, negative and padded strides, external pixels, five kinds of content) x PNG at each compression level / BMP / QOI; distinct = distinct encoded files",
    [dict(CODEC, mode="P14", quick=60000, thorough=1500000)],
    technique="online monitor: every file is decoded by independent PNG (over zlib), BMP and QOI readers that verify the format's rules, and by the library itself; pixels compared exactly, under " + SAN,
    note="Premultiplied pixels are compared after the format's straight alpha round trip with the documented rounding. JPEG encoding isn't provided by this version.",
    require=["PNG", "BMP", "QOI", "files"])
add("P15", "random PNG files from an independent writer: 15 color type/depth combinations, interlacing, filters, IDAT splits, palettes, tRNS, CgBI, ancillary chunks, animations (all dispose modes), plus structure violations; distinct = distinct files",
    [dict(CODEC, mode="P15", quick=150000, thorough=2000000)],
    technique="online monitor: decoded pixels compared with the writer's own pixels (exact), structure violations must be rejected, under " + SAN,
    note="Only bit depths that the decoder accepts (up to 8) and animation blending 'source' are generated with exact expectations.",
    require=["images", "interlaced", "palette", "animations", "rejected"])
add("P16", "random BMP (all header versions, depths, bit fields, RLE4/RLE8, top-down) and QOI streams (every chunk kind) from independent writers, each also truncated; distinct = distinct files",
    [dict(CODEC, mode="P16", quick=800000, thorough=5000000)],
    technique="online monitor: decoded pixels compared with the writer's own pixels, truncated files must be rejected, under " + SAN,
    note="Pixels which an RLE stream leaves undefined aren't judged; QOI index references to slots that were never written aren't generated.",
    require=["BMP images", "QOI images", "truncated"])
add("P17", "random baseline and progressive JPEG files from an independent encoder (sampling factors, restart intervals, scan scripts, spectral selection and successive approximation, optimised Huffman tables, quantisation 1-3); distinct = distinct files",
    [dict(CODEC, mode="P17", quick=80000, thorough=800000)],
    technique="online monitor: decoded pixels compared with a double precision inverse DCT, upsampling and color conversion of the encoder's own coefficients, under " + SAN,
    note="The accuracy bound is 1.3 for grayscale and 5.5 levels for color images (chroma upsampling filter modelled as the triangle filter the code uses).",
    require=["images", "progressive", "grayscale", "restart intervals"])
add("P18", "valid files of all four formats damaged by 1-5 mutations (bits, bytes, sizes, header fields, markers, chunks, RLE commands, truncation), files with wrapping dimensions, and short strings; each decoded four times with different heap contents and growing prefixes; distinct = distinct files",
    [dict(CODEC, mode="P18", quick=60000, thorough=1500000, case_timeout=60)],
    technique="online monitor: exactly sized heap copies under " + SAN + ", results compared between runs whose fresh heap memory is filled differently (uninitialised-read oracle), allocation ledger, watchdog for termination",
    note="Mutation based; the uninitialised-read oracle sees only reads that influence a result.",
    require=["files", "decoded", "failed reads", "chunked", "auto-detected", "PNG", "BMP", "QOI", "JPEG"])

RASTER = dict(harness="raster.cpp")
add("P30", "random scenes (1x1 to 1500x700, three formats, 0-3500 operations: all fills, strokes, text, blits, masks, clips, clears, state changes, save/restore) rendered by a synchronous context and by an asynchronous one with 1-8 threads, random command queue limits and random flushes; distinct = distinct (size, thread count, operation sequence)",
    [dict(RASTER, mode="P30", quick=80000, thorough=3000000)],
    technique="differential runtime monitor: result codes of every call and pixels at every synchronising flush and at the end compared between both renderers, under " + SAN,
    note="Schedules are those the machine produces with more threads than bands and repeated runs; races are P31's subject. Operators that no pipeline of this build provides are refused by both (compared by the pixels only).",
    require=["async runs", "threads used", "flushes compared", "draw calls ok", "long scenes"])
add("P23", "random groups of drawing calls under a clip box known to the monitor, with ordinary and extreme (huge, tiny, NaN, infinite, singular) geometry, transforms, widths and dashes, synchronous and 1-4 threads; distinct = distinct operation sequences",
    [dict(RASTER, mode="P23", quick=160000, thorough=5000000)],
    technique="online monitor: target rows are compared outside the clip box, row padding and guard rows of targets and sources are poisoned / checked, under " + SAN,
    note="Clip rectangles with a negative size aren't generated (the meaning isn't documented).",
    require=["draw calls ok", "clipped groups", "visible groups"])

add("P25", "random draw calls on small images (three formats, random opaque/translucent/zero contents) with all 29 operators, solid / image / pattern sources, masks and fills with known coverage, random global and fill alpha; distinct = distinct calls",
    [dict(RASTER, mode="P25", quick=150000, thorough=5000000)],
    technique="online monitor: each pixel of each call compared with the operator's formula evaluated in double precision for the coverage, alpha and source pixel known to the monitor, under " + SAN,
    note="This build has no JIT, so only the operators the reference pipeline provides (or that simplify to those it does) can run; refused ones must leave the pixels unchanged.",
    require=["draw calls", "masked", "operators not available", "other operators available", "pixels exact", "blits", "pattern sources", "solid sources"])

add("P24", "random paths (1-4 figures, lines, quadratic, cubic, conic and arc segments, integral, half-pixel, fractional and far coordinates), basic shapes and glyph runs under random affine transforms, both fill rules, clips and entry points, drawn into an A8/PRGB32/XRGB32 image; distinct = distinct calls",
    [dict(RASTER, mode="P24", quick=300000, thorough=8000000)],
    technique="online monitor: each pixel's coverage compared with the exact area of the transformed, finely flattened outline inside the pixel (double precision signed area per scan row for the winding rule selected; pixels where the winding isn't constant per edge are judged by bounds), under " + SAN,
    note="Tolerance = 8-bit coverage + the flattening tolerance along the edges crossing the pixel. Conic weights are a known finding.",
    require=["pixels outside", "pixels inside", "partial pixels", "curved shapes", "far geometry", "texts", "shapes with edges", "conics"])
add("P26", "random pattern fills and blits: image sizes 1x1 to 40x40, areas, nine extend modes, integral / fractional / scaled / rotated / skewed / far transforms, nearest and bilinear, three formats; distinct = distinct (pattern, transform, format)",
    [dict(RASTER, mode="P26", quick=400000, thorough=10000000)],
    technique="online monitor: each painted pixel compared with the texel(s) selected by the definition (inverse transform of the pixel center in double precision, extend mode, nearest or bilinear weights); exact where sampling is unambiguous, bounded by the neighbouring texels where fixed point may choose either, under " + SAN,
    note="Positions within the fetchers' fixed point resolution of a texel border accept either texel.",
    require=["pixels judged", "pixels exact", "blits", "patterns", "bilinear", "nearest", "affine", "fractional", "aligned"])
add("P27", "random linear, radial and conic gradients (1-9 stops, coincident, unsorted, translucent, repeated offsets), pad / repeat / reflect, random affine transforms, three formats, smooth and dithered quality; distinct = distinct gradients",
    [dict(RASTER, mode="P27", quick=300000, thorough=8000000)],
    technique="online monitor: each pixel compared with the interval of colors a double precision evaluation of the gradient gives over the table resolution around the pixel's parameter, under " + SAN,
    note="Hard edges accept both sides within the table's resolution; degenerate linear gradients (both points equal) and radial gradients outside their cone aren't judged.",
    require=["pixels judged", "pixels within 20 levels", "linear", "radial", "conic", "solid", "dithered", "repeated or reflected"])
add("P29", "random histories (3-63 steps) of transforms, styles, swaps, alphas, operators, hints, stroke and approximation options, clips, saves and restores (plain, by cookie, over the limit, by foreign and stale cookies) and failing calls, on synchronous and threaded contexts; distinct = distinct histories",
    [dict(RASTER, mode="P29", quick=120000, thorough=4000000)],
    technique="online monitor: stack model compared with every getter after every step; drawings compared pixel by pixel with those of a new context brought to the model's state, under " + SAN,
    note="The clip has no getter, it is observed by the probe drawings only.",
    require=["steps", "saves", "restores", "restores of several states", "failing calls", "drawings compared", "clips", "clips restored", "style swaps", "meta transforms", "stroke options", "styles", "saves over the limit"])
add("P34", "random sources (1x1 to 200x200, three formats, constant / random / impulse contents) scaled by nearest, bilinear, bicubic and lanczos filters to random sizes (1x1 to 300x300, ratios over 200 both ways, same size, oversize, empty), into other, same and shared images; distinct = distinct (sizes, format, filter)",
    [dict(RASTER, mode="P34", quick=120000, thorough=5000000)],
    technique="online monitor: each output pixel compared with a separable double precision reconstruction by the definition of the filter (nearest exactly), constants stay constant, same size is a copy, rejected calls change nothing, under " + SAN,
    note="Tolerance: 2 levels per component for the 8-bit fixed point passes, plus what the definition leaves open for truncated kernels.",
    require=["pixels judged", "components within 2 levels", "constant", "same size", "nearest", "bilinear", "bicubic", "lanczos", "up", "down", "more than 200 times", "layouts", "rejected"])
add("P28", "random paths (1-2 figures, 1-8 lines, quadratic and cubic curves including cusps, collinear and coincident control points, short segments, turns back), widths, 5 joins, 6 caps, miter limits, approximation options; a fifth of the cases strokes nine kinds of geometry through a synchronous or threaded context with transforms before / after; distinct = distinct paths",
    [dict(RASTER, mode="P28", quick=110000, thorough=6000000)],
    technique="online monitor: 60 probe points per outline, non-zero winding (own flattening) compared with an exact membership test of the pen's sweep (bands, joins, caps); context strokes compared with the filled outline pixel by pixel, under " + SAN,
    note="Lines, joins and caps are judged to 0.01 px, curves to 0.1 px + 17% of the half width (the offset approximation has no documented bound). Not judged: points near turns of a curve tighter than the pen, and inner corners of joins whose neighbor is shorter than the pen's radius (an inner loop may cancel other parts). Conics aren't generated.",
    require=["points inside", "points outside", "curves", "polylines", "cusps", "miter clip", "miter bevel", "miter round", "bevel", "round", "closed", "open", "pixels stroked by a context", "transform before", "transform after"])

TSAN_ENV = {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:history_size=4:second_deadlock_stack=1:report_signal_unsafe=0"}
add("P31", "random cases of 2-5 threads that start together and run 1-9 operations each (30 kinds: path info, gradients, images, copy-on-write of every container, fonts, shaping, coverage, decoding, encoding, file reads, scaling, rendering with synchronous and asynchronous contexts, font manager, cleanup) on handles that share one implementation or on one shared const object whose lazily computed caches are still empty, half of them with the last reference dropped by a thread; second run: the scenes of P30 with 1-8 worker threads; distinct = distinct (operation, sharing) sequences",
    [dict(harness="threads.cpp", mode="P31", variant="tsan", quick=14000, thorough=1000000, env=TSAN_ENV, case_timeout=120),
     dict(RASTER, mode="P30", variant="tsan", quick=20000, thorough=600000, env=TSAN_ENV, case_timeout=120)],
    technique="ThreadSanitizer (happens-before race detection, lock-order and use-after-free reports) over multi-threaded stress; the digest of every operation is compared with the one a single thread gets from equal private values",
    note="Happens-before detection generalises over the schedules of the executed accesses, not over accesses that were not executed. Concurrent reading of a variant that holds a bit set is left out (its cached cardinality is copied by generic code).",
    require=["threads", "operations", "cases_with_async_contexts", "last_reference_dropped_by_thread", "manager_cases", "cleanup_cases", "op_path-info", "op_render", "op_coverage", "op_grad-cow", "threads used"])

add("P33", "four conversions per case between random layouts (native, permuted 8888 and 888, 565/555/1555/4444/2101010 and random component sizes 1-16, byte swapped, L / LA / A8, 1/2/4/8-bit indexed with all palette kinds), random rectangles, strides of both signs, gaps and alignments; distinct = distinct (layouts, width, gap)",
    [dict(harness="pixels.cpp", mode="P33", quick=600000, thorough=20000000)],
    technique="online monitor: each converted pixel compared with a per-pixel model that decodes both layouts from their public description; bytes outside the rectangle and gap bytes compared with their expected contents, at several CPU feature levels, under " + SAN,
    note="Components that keep their size are exact; resizing may lose less than one unit of the smaller size, (un)premultiplication half a level. Alpha-only sources deeper than 8 bits, unused bits and RGB to L conversions of colored pixels aren't judged; pairs the converter reports as not implemented are counted.",
    require=["pixels", "raw copies", "indexed sources", "conversions", "with a gap", "byte swapped", "unsupported pairs"])
add("P35", "random workloads (decoding well-formed and damaged image files, encoding, deflate and checksums, pixel conversions between random layouts, glyph outlines / metrics / shaping, matrices, paths and strokes, scenes of 1-25 operations, scaling, gradients), each run in seven processes at feature levels none, SSE2, SSSE3, SSE4.1, SSE4.2, AVX, AVX2; distinct = distinct digest sequences",
    [dict(harness="cpu.cpp", mode="P35", quick=64000, thorough=4000000, libs="-lz", wraps=("malloc",))],
    technique="differential monitor: digests of every result (bytes, pixels, vertices, error codes) recorded by one process per CPU feature level are compared event by event, under " + SAN,
    note="Levels are selected by the BL_VERIF_CPU_FEATURES hook; AVX-512 code isn't dispatched by this build without JIT beyond what the levels reach. The results themselves are judged by the other properties.",
    require=["codecs", "encoders", "deflate", "pixel conversions", "fonts", "geometry", "scenes", "image scaling", "gradients", "results compared"])

ALLOC = dict(harness="alloc.cpp", libs="-lz", wraps=("malloc", "calloc", "realloc", "free"), case_timeout=60)
add("P10", "random histories of 10-120 steps on 2-4 owners that share objects of all kinds (copies, moves, swaps, resets, arrays and variants of objects, external pixel and array data, mapped and read font files, codecs, synchronous and threaded contexts dropped with or without end, owners cloned and destroyed, references dropped by other threads, a third of the histories with injected allocation failures); distinct = distinct histories",
    [dict(ALLOC, mode="P10", quick=40000, thorough=4000000)],
    technique="conservation monitor: malloc, calloc, realloc and free are wrapped at link time and keep a ledger of live blocks; after each history the ledger is empty, each external buffer was given back exactly once, and no descriptor or mapping is left; early releases and double frees under " + SAN,
    note="Pooled threads return on their own time: the ledger is polled with bl_runtime_cleanup for up to a second. Contents are read every 16 steps so that an early release is seen by AddressSanitizer.",
    require=["p10_histories", "p10_blocks", "p10_external", "p10_contexts", "p10_thread_drops", "p10_files", "p10_faults", "p10_ops"])
add("P11", "each of 164 operations (every mutating call of strings, arrays, paths, stroking, gradients, bit containers, images, codecs, patterns, font settings, text, fonts, font manager; scenes on synchronous and threaded contexts) on random shared or unshared values, first without a failure, then with each of its allocations failing (alone, or together with all later ones); distinct = distinct (operation, failing allocation)",
    [dict(ALLOC, mode="P11", quick=24000, thorough=5000000)],
    technique="fault injection with an online monitor: result code, own value (the previous one, or the one of a success), other handles' values, the retried call's result and the ledger of live blocks are judged after every injected failure, under " + SAN,
    note="Operations made of several calls (codec, text and font setups, stroking into a path) may leave a prefix; rendering operations are judged by error code, retry, ledger and memory errors, not by partial pixels.",
    require=["p11_ops", "p11_faults", "p11_reported", "p11_retries", "p11_survived"])

FONTS = dict(harness="fonts.cpp", libs="-lz")
add("P19", "files of synthesised and real fonts with damaged tables (directory, offsets, counts, cmap, glyf, CFF charstrings, layout lookups, kerning, names), each used for everything: faces, metadata, mapping, outlines, bounds, shaping, rendering; second run under MemorySanitizer; distinct = distinct files",
    [dict(FONTS, mode="P19", quick=24000, thorough=3000000, case_timeout=60), dict(FONTS, mode="P19", variant="msan", quick=6000, thorough=800000, case_timeout=120)],
    technique="AddressSanitizer, UndefinedBehaviorSanitizer and MemorySanitizer over generated hostile fonts, with a per-case watchdog against hangs",
    note="Uninitialised values are found by MemorySanitizer where they reach a branch or an address.",
    require=["p19_accepted", "collections", "p19_rejected", "p19_outlines", "p19_outline_errors"])
add("P20", "synthesised fonts (cmap formats 0, 4, 6, 10, 12, 13; simple glyphs with all flag encodings, composites nested with offsets, scales and matrices, CFF charstrings with hints, flex, subroutines; random metrics) and real fonts, random sizes and matrices, at several CPU feature levels; distinct = distinct fonts",
    [dict(FONTS, mode="P20", quick=16000, thorough=2000000)],
    technique="online monitor: glyph ids, advances, bounds and outlines compared with the model the font was generated from, or an independent reader of the file, under " + SAN,
    note="Not judged: composites matched by points, seac endchar, CFF2, and the glyph shift between the left bearing and xMin.",
    require=["p20_outlines", "collections", "p20_simple_glyphs", "p20_composites", "p20_cff_glyphs", "p20_segments", "p20_runs", "p20_huge_glyphs", "p20_cff_bounds"])
add("P21", "synthesised fonts with GSUB (types 1-4, 8, contextual ones without effect, extensions), GPOS (types 1, 2, contextual) and kern tables (formats 0, 2, 3; Windows and Mac) of random scripts, features, coverages, classes and value formats, texts assembled from what the tables react to, random feature settings, whole shaping and single steps with chosen lookups; distinct = distinct fonts",
    [dict(FONTS, mode="P21", quick=12000, thorough=1500000)],
    technique="online monitor: glyphs, clusters, placements and text metrics compared with a model of the layout rules that runs on the structures the tables were generated from, under " + SAN,
    note="Known findings: subtables of one lookup stack, contextual lookups apply nothing. Lookup flags aren't judged; whether ccmp and rlig are on by default isn't either (they are set explicitly).",
    require=["p21_shaped", "p21_steps", "p21_legacy_kern", "gsub_type1", "gsub_type2", "gsub_type3", "gsub_type4", "gsub_type8", "gpos_kind1", "gpos_kind2", "gpos_kind3", "kern_format0", "kern_format2", "kern_format3", "p21_stack", "p21_contextual"])
add("P22", "random texts, well-formed and with every kind of ill-formed sequence, in Latin-1, UTF-8, UTF-16 and UTF-32, with explicit sizes and null terminated, set on glyph buffers and drawn by contexts; distinct = distinct texts",
    [dict(FONTS, mode="P22", quick=20000, thorough=3000000)],
    technique="online monitor: glyph buffer content, clusters, flags and results compared with an independent decoder; pixels of the same text in all encodings compared, under " + SAN,
    note="Surrogates encoded in UTF-8 or UTF-32 and unpaired ones in UTF-16 pass through unflagged.",
    require=["p22_illformed", "p22_wellformed", "p22_set_glyphs", "p22_draws", "p22_ink"])
add("P39", "random histories of additions (faces with generated family, subfamily, full and PostScript names, weights, styles and stretches; repeated, equal and invalid faces; from one or several threads) and queries with names of any case and length; distinct = distinct histories",
    [dict(FONTS, mode="P39", quick=16000, thorough=2000000)],
    technique="online monitor: counts, membership, listings and best matches compared with a model of the added set, names with an independent reader of the name table, under " + SAN,
    note="Among equally good matches any is accepted. Name records of the WWS family aren't generated.",
    require=["p39_faces", "p39_family_hits", "p39_family_none", "p39_query_hits", "p39_query_unique_best", "p39_query_none", "p39_threaded"])
add("P36", "histories of open, read, write, seek, truncate, query, close and move on several handles of the same files, whole-file reads (mapped or not) and writes, images and fonts by file name, with generated sizes and flags, without faults or with short, interrupted, failing and early ending system calls; distinct = distinct histories of operation kinds",
    [dict(harness="files.cpp", mode="P36", quick=20000, thorough=3000000, wraps=("open64", "close", "read", "write", "lseek64", "ftruncate64", "fstat64", "stat64", "mmap", "munmap"))],
    technique="fault injection into wrapped system calls with an online monitor: bytes, counts, positions, errors, file contents (read past the library), descriptor and mapping ledgers compared with a model, under " + SAN,
    note="Runs as root: permission errors are injected. An interrupted call may be reported or retried. Files without a size (procfs) aren't judged.",
    require=["p36_opens", "p36_reads", "p36_writes", "p36_partial_reads", "p36_partial_writes", "p36_short_transfers", "p36_injected", "p36_mapped_files", "p36_infos", "p36_image_reads", "p36_font_files"])
add("P32", "half the cases: histories of acquire (1-80 threads, exact or best effort), run, release, cleanup and references on the global or an own pool; other half: histories of several contexts alive at once (0-100 requested threads, fallback and isolated pools, small queues) that draw, flush, end, by one or several user threads, with cleanups in between; thread creation fails or is delayed, waits wake up spuriously, wakes are delayed, futex and portable implementations; distinct = distinct histories of operations and granted threads",
    [dict(harness="pool.cpp", mode="P32", quick=2400, thorough=400000, wraps=("pthread_create", "syscall"), case_timeout=90)],
    technique="schedule and fault injection into wrapped pthread_create and futex calls with online monitors: conservation of threads (created, ended, acquired, idle), exactly-once counters of works, granted thread counts, error flags, pixels equal to synchronous rendering at each synchronising point, threads alive after cleanup, hang watchdog, under " + SAN,
    note="Fewer threads than asked for are accepted without an error flag when the pool's limit of 64 was the reason.",
    require=["p32_acquires", "p32_failed_acquires", "p32_works", "p32_isolated", "p32_threaded_contexts", "p32_fallbacks", "p32_failed_creations", "p32_delays", "p32_spurious_wakeups", "p32_futex_cases", "p32_portable_cases", "p32_flushes", "p32_concurrent_contexts"])
add("P37", "sequences of up to 90 API calls on contexts (synchronous and threaded), paths, gradients, patterns, images, pixel converters, bit sets and arrays, arrays, strings and fonts whose numbers are NaN, infinities, huge, subnormal, the ends of their integer type or ordinary, and whose enumerations, indexes, sizes and ranges are often invalid; afterwards each object is reset and must work; distinct = distinct sequences of calls and results",
    [dict(harness="args.cpp", mode="P37", quick=200000, thorough=60000000)],
    technique="hostile argument generation with sanitizers and assertions as oracle, plus monitors: hung calls, AddressSanitizer redzones around every allocation, objects still usable (drawing after a reset gives the expected pixels, added elements are stored)",
    note="Null pointers, memory sizes that lie about a caller's buffer and valid but huge images are not passed.",
    require=["drawing-calls", "contexts-probed", "path-calls", "style-calls", "image-calls", "container-calls", "font-calls", "rejected-calls"])
