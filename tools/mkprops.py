#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (edit here, then run)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Copies of every object type are independent values",
  "After any sequence of copies, moves, swaps and mutations over any number of handles, each handle of a value type (string, array, bit set, bit array, path, gradient, pattern, image, stroke options, font settings, variant) holds exactly the value that the operations applied through that handle produce. A mutation through one handle is never visible through another, also when one handle is passed as the argument of an operation on itself or on a handle that shares its storage.",
  ["histories"], "every interleaving of copy / move / mutate over several handles of every value type, including self-aliased arguments",
  "Unit tests copy each type a few times; copy-on-write bugs need particular sharing states (shared, inline, immutable, default) combined with a particular mutator.",
  ["blend2d/core/object_p.h", "blend2d/core/object.cpp", "blend2d/core/array.cpp", "blend2d/core/string.cpp", "blend2d/core/bitset.cpp", "blend2d/core/bitarray.cpp", "blend2d/core/path.cpp", "blend2d/core/gradient.cpp", "blend2d/core/pattern.cpp", "blend2d/core/image.cpp", "blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp", "blend2d/core/var.cpp"],
  [("is_impl_mutable / reference count test before writing", "blend2d/core/object_p.h"), ("deep copy on write paths", "blend2d/core/path.cpp, gradient.cpp, image.cpp")],
  [("ref_count", "number of handles that share one implementation", "blend2d/core/object_p.h")],
  ["public getters of every live handle after every step"])

p("P02", "Strings and arrays behave as sequences",
  "For every history of operations (assign, append, prepend/insert, replace, remove, resize, reserve, shrink, clear, formatted append, modify/insert with uninitialised space, external data), a string or an array of any element type has the content, size and comparison/search results of a plain sequence on which the same operations are performed. Out-of-range arguments are clamped or rejected as documented and a rejected operation leaves the content as it was; capacity never is less than size and reserve(n) provides at least n.",
  ["histories", "inputs"], "all operation histories, element types, sizes across the inline/dynamic border, indexes and ranges including out-of-range ones",
  "Unit tests use short fixed sequences on few element types.",
  ["blend2d/core/array.cpp", "blend2d/core/array.h", "blend2d/core/string.cpp", "blend2d/core/string.h"],
  [("insert/replace/remove element shifting", "blend2d/core/array.cpp"), ("SSO/dynamic transitions", "blend2d/core/string.cpp")],
  observe=["size(), data(), equals/compare/index_of after each step"])

p("P03", "Bit sets behave as sets of 32-bit integers",
  "After any history of operations (add/clear bit, range, words, assign, chop, optimize, shrink, copy, builder) a bit set contains exactly the elements a mathematical set over 0..2^32-2 would contain. Membership, range queries, cardinality (total and in a range), minimum/maximum, subsumes/intersects/equals/compare and iteration over bits and ranges all agree with that set, whatever the internal representation of the operands.",
  ["histories", "inputs"], "all histories over dense, range, inline and segmented representations, at segment and word borders",
  "Unit tests check selected operand pairs; representation (inline words, inline range, dense/range segments) x operation x border offsets is combinatorial.",
  ["blend2d/core/bitset.cpp", "blend2d/core/bitset.h", "blend2d/core/bitset_p.h"],
  [("segment iteration and merging", "blend2d/core/bitset.cpp"), ("SSO range / SSO dense words", "blend2d/core/bitset_p.h")],
  observe=["has_bit, cardinality, iterators, equals, compare"])

p("P04", "Bit arrays behave as bit vectors",
  "After any history of operations (resize, set/clear/replace bit, fill/clear range, word and multi-word fill/clear/replace/append, assign, copy) a bit array has the size and bits of a plain vector of bits on which the same operations are performed. Cardinality (total and in a range), range and membership queries, subsumes/intersects/equals/compare agree with that vector, and bits beyond the size never leak into any answer.",
  ["histories", "inputs"], "all histories and offsets across the inline/dynamic border and word borders",
  "Unit tests use few sizes and offsets.",
  ["blend2d/core/bitarray.cpp", "blend2d/core/bitarray.h", "blend2d/core/bitarray_p.h"],
  [("word masking", "blend2d/core/bitarray.cpp")], observe=["has_bit, data(), cardinality, equals, compare"])

p("P05", "Path construction and editing follow the command model",
  "After any history of path building and editing (move/line/quad/conic/cubic/smooth/arc/close, add of boxes, rectangles, round rectangles, circles, ellipses, arcs, chords, pies, triangles, polylines and polygons in either direction and with any transform, add path / reversed / translated / transformed sub-ranges, remove range, translate/transform a range, set vertex) the path's commands and vertices are those a simple list model produces. A rejected operation (e.g. drawing without a start vertex, invalid range) leaves the path unchanged.",
  ["histories", "inputs"], "all operation histories, ranges, transforms and geometry types",
  "Unit tests check a handful of built paths.",
  ["blend2d/core/path.cpp", "blend2d/core/path.h", "blend2d/core/path_p.h"],
  [("append space and command emission", "blend2d/core/path.cpp")], observe=["command_data(), vertex_data(), size(), results"])

p("P06", "Path queries agree with the geometry of the path",
  "For every path, the control box is the exact box of its vertices, the bounding box contains every point of every segment and touches the curve on all four sides, and hit testing a point classifies it as inside exactly when the winding number (non-zero) or crossing parity (even-odd) of the path around it says so. Closest-vertex, last-vertex, figure-range, equality and info-flag queries agree with the stored commands and vertices, also after the path has been modified since the last query.",
  ["inputs", "histories"], "all paths mixing lines, quadratics, conics and cubics; all query points not numerically on the outline",
  "Unit tests check few fixed shapes; the answers are cached and must be invalidated on every mutation.",
  ["blend2d/core/path.cpp", "blend2d/geometry/bezier_p.h"],
  [("cached path info + dirty flag", "blend2d/core/path.cpp, path_p.h"), ("curve extrema / winding", "blend2d/core/path.cpp")],
  observe=["get_control_box, get_bounding_box, hit_test, get_closest_vertex, get_figure_range"])

p("P07", "Gradients and patterns store what was set",
  "After any history of stop insertions, replacements, removals, assignments and property changes, a gradient's stops are the stable offset-ordered list a simple model produces and its type, values, extend mode and transform are those last set. A pattern likewise returns the image, area, extend mode and transform last set; invalid arguments are rejected without changing anything, and equality is equality of all of those.",
  ["histories", "inputs"], "all histories of stop and property operations, equal offsets, unsorted input, invalid offsets/areas",
  "Unit tests cover a few short histories.",
  ["blend2d/core/gradient.cpp", "blend2d/core/gradient.h", "blend2d/core/pattern.cpp", "blend2d/core/pattern.h"],
  [("sorted stop insertion", "blend2d/core/gradient.cpp")], observe=["stops(), values, transform, equals"])

p("P08", "Font feature and variation settings behave as ordered maps",
  "After any history of set, remove, clear, shrink and copy, feature settings and variation settings hold exactly the tag to value pairs of a map: lookups return the last value set or the documented 'not set' value, the exported view is sorted by tag without duplicates, and equality is equality of maps. Invalid tags or values are rejected without changing anything.",
  ["histories", "inputs"], "all histories over any tags, across inline (known and unknown tags) and dynamic storage",
  "Unit tests walk one ordered sequence of tags.",
  ["blend2d/core/fontfeaturesettings.cpp", "blend2d/core/fontvariationsettings.cpp", "blend2d/core/fonttagdata_p.h", "blend2d/core/fonttagdataids.cpp"],
  [("SSO bit/fat tag encoding", "blend2d/core/fontfeaturesettings.cpp")], observe=["get_value, has_value, get_view, equals"])

p("P09", "Variants and color types preserve and convert values exactly",
  "A variant returns the value and type that was assigned, converts to another numeric type exactly when the value is representable (otherwise reports an error or the documented clamped result), and its equality relations agree with the mathematical values. Conversions between the 8-bit, 16-bit and floating point color types and their premultiplied forms agree with their definitions for every value.",
  ["inputs", "histories"], "all values incl. NaN, infinities, limits and any object held",
  "Unit tests check single sample values per type.",
  ["blend2d/core/var.cpp", "blend2d/core/var.h", "blend2d/core/rgba.h", "blend2d/core/rgba_p.h", "blend2d/core/object.cpp"],
  [("number conversion with range checks", "blend2d/core/var.cpp")], observe=["bl_var_to_*, bl_var_equals*"])

p("P10", "Every resource is released exactly once",
  "However objects of any type are created, shared between handles and threads, moved, reset and destroyed, each underlying resource (memory block, mapped file, external pixel/array/font data with a destroy callback, open file) is released exactly once and not before its last user is gone. When all handles are gone nothing remains allocated apart from library-wide caches, which cleanup and shutdown release.",
  ["histories", "schedules"], "all creation/sharing/destruction histories, with references dropped concurrently",
  "Unit tests do not count releases; leaks and double releases depend on sharing history and on which thread drops the last reference.",
  ["blend2d/core/object.cpp", "blend2d/core/object_p.h", "blend2d/core/image.cpp", "blend2d/core/fontdata.cpp", "blend2d/core/array.cpp", "blend2d/core/filesystem.cpp", "blend2d/raster/rastercontext.cpp"],
  [("atomic reference counting", "blend2d/core/object_p.h"), ("external data preface with destroy_func", "blend2d/core/object.cpp")],
  observe=["destroy callbacks, allocation ledger (interposed malloc/free/mmap), AddressSanitizer"])

p("P11", "Allocation failure is reported and leaves objects valid",
  "If any memory allocation made inside an API call fails, the call either still succeeds or returns an error; it never crashes, corrupts memory, leaks or hangs. Value objects involved keep a valid value - the previous one, or for multi-step construction a consistent prefix - and can be used, retried and destroyed normally afterwards.",
  ["fault_sequences", "histories"], "every allocation point of every operation in the workload failing (once, or from then on)",
  "No existing test injects allocation failures.",
  ["blend2d/core/object.cpp", "blend2d/core/array.cpp", "blend2d/core/path.cpp", "blend2d/core/bitset.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/raster/workermanager.cpp", "blend2d/support/arenaallocator.cpp", "blend2d/support/zeroallocator.cpp", "blend2d/codec/pngcodec.cpp"],
  [("BL_ERROR_OUT_OF_MEMORY propagation", "whole library"), ("edge builder revert and accumulated error flags", "blend2d/raster")],
  observe=["result codes, object values after failure, ASan/LSan"], hook="none (allocation functions are wrapped at link time)")

p("P12", "Decompression implements DEFLATE/zlib exactly",
  "For every well-formed raw-deflate or zlib stream the decoder produces exactly the original bytes, whichever block types, Huffman tables, match distances and lengths the stream uses and however the input is cut into chunks. Malformed, truncated or checksum-damaged streams are reported as errors or as needing more data, never accepted with wrong output, and the decoder never writes outside the output it owns.",
  ["inputs", "histories"], "all valid streams, corruptions of them, and all chunkings of the input",
  "Unit tests decode what this library's own encoder produced plus a few fixed vectors.",
  ["blend2d/compression/deflatedecoder.cpp", "blend2d/compression/deflatedecoderfastimpl_p.h", "blend2d/compression/deflatedecoderutils.cpp", "blend2d/compression/checksum.cpp"],
  [("table building and fast/slow loops", "blend2d/compression/deflatedecoder.cpp")], observe=["decoded bytes against system zlib / generator"])

p("P13", "Compression is lossless at every level",
  "For every input and every compression level and format the encoder produces a well-formed stream (as judged by an independent inflater, including the Adler-32 trailer) that decompresses to exactly the input, and never exceeds the size bound it announces. Adler-32 and CRC-32 equal their mathematical definition for all lengths, alignments, seeds and splits.",
  ["inputs", "configurations"], "all inputs (incompressible, repetitive, large, empty), levels 0-12, formats",
  "Unit tests check a few generated buffers and only against this library's own decoder and checksums.",
  ["blend2d/compression/deflateencoder.cpp", "blend2d/compression/matchfinder_p.h", "blend2d/compression/checksum.cpp", "blend2d/compression/checksumadler32simdimpl_p.h", "blend2d/compression/checksumcrc32simdimpl_p.h"],
  [("match finder, block splitting, Huffman code construction", "blend2d/compression/deflateencoder.cpp")], observe=["encoded streams decoded by system zlib"])

p("P14", "Saved images can be read back unchanged by anyone",
  "Encoding any image with the PNG, BMP or QOI codec at any supported setting yields a file that follows the format's specification, and that both an independent decoder and this library's decoder turn back into exactly the original pixels (up to the alpha premultiplication round trip of the format). Sub-images with any stride, and images of every pixel format and size including 1xN and Nx1, are covered.",
  ["inputs", "configurations"], "all image contents, sizes, pixel formats, strides and compression levels",
  "Unit tests round-trip with this library's own decoder only.",
  ["blend2d/codec/pngcodec.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/codec/pngops.cpp"],
  [("PNG filter selection, CRC, zlib stream", "blend2d/codec/pngcodec.cpp")], observe=["independent decode of the produced bytes"])

p("P15", "PNG files decode to the pixels the specification defines",
  "Every valid PNG - any color type at bit depths up to 8, interlaced or not, any filter sequence, any split of the data over IDAT chunks, palette and transparency chunks, ancillary chunks, any dimension - decodes to exactly the pixels the PNG specification defines (premultiplied as documented), and reports matching image information. Files that violate the structure (wrong checksum of the data stream, truncated, bad order or sizes) are rejected with an error.",
  ["inputs"], "all valid PNG files and structural corruptions of them",
  "No test decodes PNGs produced by anything but this library's encoder.",
  ["blend2d/codec/pngcodec.cpp", "blend2d/codec/pngops.cpp", "blend2d/codec/pngops_sse2.cpp", "blend2d/codec/pngops_avx.cpp"],
  [("filter reversal, Adam7 deinterlace, depth conversion", "blend2d/codec/pngcodec.cpp, pngops*.cpp")], observe=["decoded pixels against an independent model"])

p("P16", "BMP and QOI files decode to the pixels their formats define",
  "Every valid BMP (1/2/4/8-bit palette, 16/24/32-bit, bit fields, RLE4/RLE8, top-down and bottom-up, all header versions) and every valid QOI stream (all chunk kinds in any order) decodes to exactly the pixels the format defines. Truncated or inconsistent files are rejected with an error instead of producing invented pixels where the format requires data.",
  ["inputs"], "all valid files of both formats and truncations of them",
  "No test decodes BMP/QOI files other than those of this library's encoder.",
  ["blend2d/codec/bmpcodec.cpp", "blend2d/codec/qoicodec.cpp"],
  [("RLE and bit-field decoding", "blend2d/codec/bmpcodec.cpp"), ("QOI chunk decoding", "blend2d/codec/qoicodec.cpp")], observe=["decoded pixels against an independent model"])

p("P17", "JPEG files decode within the accuracy JPEG allows",
  "Every valid baseline or progressive JPEG (grayscale or YCbCr, any supported sampling factors, restart intervals, arbitrary Huffman and quantisation tables, any dimension) decodes to pixels within rounding distance of an exact reference decoder. Corrupted or truncated streams produce an error or a complete, deterministic image, never garbage that depends on unrelated memory.",
  ["inputs"], "all valid JPEG streams over these features",
  "Tests decode one JPEG and look at the exit code.",
  ["blend2d/codec/jpegcodec.cpp", "blend2d/codec/jpeghuffman.cpp", "blend2d/codec/jpegops.cpp", "blend2d/codec/jpegops_sse2.cpp"],
  [("Huffman decode, successive approximation, IDCT, upsampling, color conversion", "blend2d/codec/jpeg*.cpp")], observe=["decoded pixels against a double precision reference decoder"])

p("P18", "Untrusted image data is decoded safely",
  "For every byte sequence offered as an image, in one piece or growing chunk by chunk, reading its information or pixels terminates, never accesses memory out of bounds or uninitialised, never leaks, and ends in either an error or an image of the announced size and format. The result is a function of the bytes alone, and a failed read leaves the destination image valid.",
  ["inputs"], "all byte sequences, with emphasis on mutated and truncated valid files of all formats",
  "Tests feed no malformed image.",
  ["blend2d/codec/pngcodec.cpp", "blend2d/codec/bmpcodec.cpp", "blend2d/codec/jpegcodec.cpp", "blend2d/codec/jpeghuffman.cpp", "blend2d/codec/qoicodec.cpp", "blend2d/compression/deflatedecoder.cpp", "blend2d/core/imagedecoder.cpp", "blend2d/core/imagecodec.cpp"],
  [("bounds checks in every parser", "blend2d/codec")], observe=["AddressSanitizer/UBSan, result codes, poisoned-allocation differential"])

p("P19", "Untrusted font data is handled safely",
  "For every byte sequence offered as a font, creating faces and fonts from it, querying metadata, mapping text, decoding glyph outlines and bounds, shaping and rendering text all terminate and never access memory out of bounds or misbehave; each ends in success or an error. The outcome is a function of the bytes alone.",
  ["inputs"], "all byte sequences, with emphasis on mutations of valid TrueType/OpenType tables (cmap, glyf/loca, CFF, GSUB/GPOS/GDEF, kern, name, metrics)",
  "Tests only load one good font.",
  ["blend2d/opentype/otcore.cpp", "blend2d/opentype/otcmap.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otglyfsimdimpl_p.h", "blend2d/opentype/otcff.cpp", "blend2d/opentype/otlayout.cpp", "blend2d/opentype/otkern.cpp", "blend2d/opentype/otname.cpp", "blend2d/opentype/otmetrics.cpp", "blend2d/opentype/otface.cpp", "blend2d/core/fontdata.cpp"],
  [("table validation and bounds-checked readers", "blend2d/opentype")], observe=["AddressSanitizer/UBSan, result codes"])

p("P20", "Character mapping, metrics and outlines follow the font file",
  "For every valid font, each character maps to the glyph its character map (formats 0, 4, 6, 10, 12, 13) assigns, each glyph's advance, bearing and bounds are those of its metric tables, and each outline is the one its TrueType (simple and composite) or CFF program describes, scaled and transformed as requested. This holds on every instruction-set path.",
  ["inputs", "configurations"], "all characters and glyphs of valid (real and synthesised) fonts, sizes and matrices, CPU feature levels",
  "Tests never check a glyph outline or mapping against the font file.",
  ["blend2d/opentype/otcmap.cpp", "blend2d/opentype/otglyf.cpp", "blend2d/opentype/otglyfsimdimpl_p.h", "blend2d/opentype/otcff.cpp", "blend2d/opentype/otmetrics.cpp", "blend2d/core/font.cpp", "blend2d/core/fontface.cpp"],
  [("cmap binary search, glyf flag/vertex decoding, CFF charstring VM", "blend2d/opentype")], observe=["glyph ids, outlines as paths, advances, bounds"])

p("P21", "Text shaping applies the font's layout rules",
  "Shaping a glyph buffer with a font applies exactly the substitutions (single, multiple, alternate, ligature, reverse chained) and adjustments (single, pair by glyphs and by classes, and the kerning of a kern table when GPOS has no kern feature) of the lookups that the default language system of the font's latn (or DFLT) script selects by its required feature and by the features that are enabled, in lookup order, and nothing else; the same holds for the individual steps with chosen lookups. A lookup's first matching subtable decides at each position. Text metrics equal the sum of the advances, and each output glyph keeps the cluster of the first input glyph it was made from, so clusters stay monotonic. Nested lookups of contextual rules and several subtables matching one glyph are recorded as known findings; lookup flags are not judged.",
  ["inputs", "configurations"], "all texts, feature settings and layout tables",
  "Tests never check a shaped result.",
  ["blend2d/opentype/otlayout.cpp", "blend2d/opentype/otlayoutcontext_p.h", "blend2d/opentype/otkern.cpp", "blend2d/core/font.cpp", "blend2d/core/glyphbuffer.cpp"],
  [("GSUB/GPOS lookup application", "blend2d/opentype/otlayout.cpp")], observe=["glyph ids, clusters and placements after shape()"])

p("P22", "Text of every encoding is transcoded and validated correctly",
  "Latin-1, UTF-8, UTF-16 and UTF-32 text set on a glyph buffer, drawn, or mapped is interpreted as exactly the code points the encoding defines, each ill-formed unit (overlong, truncated, stray, out of range) becomes one U+FFFD and sets the invalid-text flag, and surrogates that are not paired pass through as they are. The same text in different encodings yields the same glyphs and the same pixels.",
  ["inputs"], "all code unit sequences, valid and ill-formed",
  "Unit tests check a few valid and invalid strings.",
  ["blend2d/unicode/unicode.cpp", "blend2d/unicode/unicode_p.h", "blend2d/core/glyphbuffer.cpp"],
  [("validating iterators", "blend2d/unicode/unicode_p.h")], observe=["glyph buffer content and results"])

p("P23", "Drawing never touches memory or pixels outside its target",
  "No drawing operation modifies a byte that is not a pixel of the target image inside the current clip area: not stride padding, not neighbouring memory of a sub-image, not the source image, pattern, mask, path or font. No drawing operation reads outside the images, masks, fonts and paths it is given, for any geometry, transform, clip, style, extend mode or stroke, in synchronous and multi-threaded contexts.",
  ["inputs", "histories", "configurations"], "all drawing sequences, geometry (also far outside and huge), styles, clips, formats, strides and thread counts",
  "Tests render inside ordinary images without guards; nothing watches the surroundings.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/edgebuilder_p.h", "blend2d/raster/analyticrasterizer_p.h", "blend2d/pipeline/reference/fillgeneric_p.h", "blend2d/pipeline/reference/fetchgeneric_p.h", "blend2d/raster/workerproc.cpp"],
  [("clipping in edge builder and rasterizer", "blend2d/raster"), ("fetch boundary handling", "blend2d/pipeline/reference")],
  observe=["guard bytes around external pixel data, hashes of sources, AddressSanitizer"])

p("P24", "Filled coverage equals the area the path covers in each pixel",
  "Filling a path, polygon or any geometry under any affine transform writes, for every pixel, a coverage within rasterizer precision of the exact area of the pixel inside the shape under the selected fill rule; pixels wholly outside stay untouched and pixels wholly inside get full coverage. It does not matter by which entry point (path, rectangle, box, polygon, round rectangle, circle, ...) the same shape is drawn, where it lies relative to the clip or image border, or whether it is split into sub-paths.",
  ["inputs"], "all shapes, transforms, fill rules, positions and clips",
  "No test compares rendered coverage with geometry; the existing ones compare one mode of the same rasterizer with another.",
  ["blend2d/raster/edgebuilder_p.h", "blend2d/raster/analyticrasterizer_p.h", "blend2d/raster/rastercontext.cpp", "blend2d/pipeline/reference/fillgeneric_p.h", "blend2d/geometry/bezier_p.h"],
  [("analytic cell accumulation", "blend2d/raster/analyticrasterizer_p.h"), ("curve flattening and clipping", "blend2d/raster/edgebuilder_p.h")],
  observe=["A8/PRGB32 pixels against an independent exact-area computation"])

p("P25", "Each pixel is composited by the operator's formula",
  "For every supported composition operator, destination and source format, color/alpha, global and style alpha, and shape coverage or mask, the resulting pixel equals the operator's formula applied to the previous pixel, within the rounding of the 8-bit pipeline; exact cases (full or zero coverage, opaque or transparent source) are exact. Premultiplied destinations stay valid (no component exceeds alpha), drawing that has no effect by formula changes nothing, and an operator that is not available is reported as an error without changing any pixel.",
  ["inputs", "configurations"], "all operators, formats, source/destination values, alphas, masks and entry points (fill, clear, blit, mask)",
  "No test checks rendered colors.",
  ["blend2d/pipeline/reference/compopgeneric_p.h", "blend2d/core/compopsimplifyimpl_p.h", "blend2d/core/compopinfo.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/pixelops/scalar_p.h", "blend2d/pipeline/reference/fixedpiperuntime.cpp"],
  [("operator simplification table", "blend2d/core/compopsimplifyimpl_p.h"), ("pixel formulas", "blend2d/pipeline/reference/compopgeneric_p.h")],
  observe=["pixels before/after against the formula"])

p("P26", "Pattern and image sources sample the right texels",
  "Each pixel painted from an image (pattern fill or blit) takes the texel, or bilinear mix of texels, that the pattern's area, transform, extend modes and quality hint define at the pixel's center, for all formats, offsets, scales and rotations. With pad, repeat and reflect in each axis the image continues exactly as those modes define in all directions and arbitrarily far away.",
  ["inputs", "configurations"], "all areas, offsets (integral and fractional), affine transforms, nine extend modes, quality hints, formats",
  "No test checks pattern pixels.",
  ["blend2d/pipeline/reference/fetchgeneric_p.h", "blend2d/pipeline/pipedefs.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/raster/renderfetchdata.cpp"],
  [("pattern fetchers", "blend2d/pipeline/reference/fetchgeneric_p.h"), ("fetch data initialisation", "blend2d/pipeline/pipedefs.cpp")],
  observe=["pixels against a direct evaluation of the sampling definition"])

p("P27", "Gradient sources evaluate the gradient they describe",
  "Each pixel painted with a linear, radial or conic gradient has, within the resolution of the color table, the color that interpolating the stops at the gradient parameter of the pixel center gives, for all stop lists, geometry values, extend modes and transforms. Stop order, coincident stops (hard edges), single stops and degenerate geometry follow the documented rules.",
  ["inputs", "configurations"], "all stop lists, values, extend modes, transforms, quality hints",
  "No test checks gradient pixels.",
  ["blend2d/core/gradient.cpp", "blend2d/pipeline/reference/fetchgeneric_p.h", "blend2d/pipeline/pipedefs.cpp", "blend2d/pixelops/interpolation.cpp", "blend2d/pixelops/interpolation_sse2.cpp"],
  [("LUT interpolation", "blend2d/pixelops"), ("gradient fetchers", "blend2d/pipeline")],
  observe=["pixels against a double precision evaluation"])

p("P28", "Strokes cover exactly the pen's sweep",
  "Stroking a path covers, within curve-offset tolerance, the set of points the pen sweeps: the band of half the stroke width around each segment, plus the selected joins (miter with limit, bevel, round) at interior vertices and caps at open ends, and nothing else. Stroke-to-path, stroking through the rendering context, transform-before/after order and stroking of basic geometry agree with each other.",
  ["inputs", "configurations"], "all paths, widths, caps, joins, miter limits, transforms",
  "No test checks a stroke's shape.",
  ["blend2d/core/pathstroke.cpp", "blend2d/core/pathstroke_p.h", "blend2d/core/path.cpp", "blend2d/raster/rastercontextops.cpp"],
  [("offsetting, joins and caps", "blend2d/core/pathstroke.cpp")], observe=["point membership of the stroked outline against distance tests"])

p("P29", "Context state is exactly what was set, saved and restored",
  "After any history of state changes, saves and restores (plain and by cookie), every queryable piece of context state (styles, alphas, operator, transforms, hints, fill and stroke options, approximation options) equals what a stack model says, and drawing uses that state including clip and transforms. A failing call changes no state, and restore without matching save is rejected.",
  ["histories"], "all histories of state changes, nested saves, cookies and failing calls",
  "Unit tests check a few short histories of getters.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/statedata_p.h", "blend2d/core/context.cpp"],
  [("lazy state saving (saved-state chain and dirty flags)", "blend2d/raster/rastercontext.cpp")], observe=["getters and probe drawings after every step"])

p("P30", "Multi-threaded rendering equals synchronous rendering",
  "For every sequence of drawing and state calls, every thread count and every flush pattern, the image produced by an asynchronous context is pixel-identical to the one a synchronous context produces, and complete once flush(sync) or end returns. Repeating the run gives the same pixels under every schedule.",
  ["schedules", "histories", "configurations"], "all call sequences, thread counts, flush points, thread schedules",
  "The MT tester compares a few random scenes per run without perturbing schedules and without text, styles changing while shared, or image reuse.",
  ["blend2d/raster/rastercontext.cpp", "blend2d/raster/workerproc.cpp", "blend2d/raster/workermanager.cpp", "blend2d/raster/renderbatch_p.h", "blend2d/raster/renderjobproc_p.h", "blend2d/raster/rendercommandprocasync_p.h", "blend2d/raster/workersynchronization.cpp"],
  [("job/command queues and barriers", "blend2d/raster"), ("band-local command replay", "blend2d/raster/rendercommandprocasync_p.h")],
  observe=["final pixels of both contexts"])

p("P31", "Concurrent use is free of data races",
  "Threads may concurrently use distinct objects, copy and destroy handles that share one implementation, read the same immutable objects (also through lazily computed caches such as path info and gradient tables), use the global font manager and codecs, and run multi-threaded contexts, without any data race or lifetime error. Every thread observes fully initialised values.",
  ["schedules"], "all schedules of the concurrent operations the API permits",
  "Tests use threads only inside the rendering context and never under a race detector.",
  ["blend2d/core/object_p.h", "blend2d/core/gradient.cpp", "blend2d/core/path.cpp", "blend2d/core/fontmanager.cpp", "blend2d/core/imagecodec.cpp", "blend2d/threading/threadpool.cpp", "blend2d/raster/workermanager.cpp", "blend2d/raster/workersynchronization.cpp", "blend2d/opentype/otface.cpp", "blend2d/core/runtime.cpp"],
  [("atomics and reader/writer locks", "blend2d/threading"), ("publication of lazily built caches", "blend2d/core/gradient.cpp, path.cpp")],
  observe=["ThreadSanitizer over stress workloads, value checks in every thread"])

p("P32", "The thread pool and async contexts lose no thread and no work",
  "Whatever contexts are created, run and ended, also when threads cannot be created, every rendering context gets at most the threads it asked for (or reports/falls back as its flags say), every queued job runs exactly once before a synchronising flush or end returns, and every thread goes back to its pool; cleanup then releases idle threads and later work still proceeds. No sequence of operations deadlocks.",
  ["schedules", "fault_sequences", "histories"], "all creation/ending orders, pool sizes, thread creation failures, delays in workers",
  "One unit test acquires and releases threads; failures and delays are never injected.",
  ["blend2d/threading/threadpool.cpp", "blend2d/threading/thread.cpp", "blend2d/raster/workermanager.cpp", "blend2d/raster/workersynchronization.cpp"],
  [("thread accounting bitmaps", "blend2d/threading/threadpool.cpp"), ("worker synchronisation", "blend2d/raster/workersynchronization.cpp")],
  observe=["thread counts, interposed pthread calls, accumulated error flags, pixels"])

p("P33", "Pixel format conversion is exact",
  "Converting pixels between any two supported pixel layouts (component sizes and shifts, byte swapped, premultiplied or not, indexed, A8 and 32-bit native formats) gives, for every pixel, width, height, stride, gap and alignment, the value the layouts define, on every instruction-set path. Padding and gap bytes follow the requested options and nothing outside the rectangle is written.",
  ["inputs", "configurations"], "all layouts, pixel values, rectangle shapes, alignments, CPU feature levels",
  "Unit tests convert a few layouts and values.",
  ["blend2d/core/pixelconverter.cpp", "blend2d/core/pixelconverter_sse2.cpp", "blend2d/core/pixelconverter_ssse3.cpp", "blend2d/core/pixelconverter_avx2.cpp", "blend2d/core/format.cpp", "blend2d/core/image.cpp"],
  [("converter selection and kernels", "blend2d/core/pixelconverter*.cpp")], observe=["converted buffers against a scalar model"])

p("P34", "Image scaling computes the filter it names",
  "Scaling an image to any size with any filter yields, for every pixel and format, the weighted sum the filter defines (weights normalised, taken from pixels inside the source), within fixed-point rounding; a constant image stays constant and an unchanged size reproduces the image. Results do not depend on stride or sub-image placement.",
  ["inputs", "configurations"], "all image sizes, target sizes, filters and formats",
  "No test scales an image and checks pixels.",
  ["blend2d/core/imagescale.cpp", "blend2d/core/image.cpp"],
  [("weight table and separable passes", "blend2d/core/imagescale.cpp")], observe=["scaled pixels against a double precision model"])

p("P35", "Results do not depend on the CPU's instruction set",
  "Every result - decoded and encoded images, checksums, converted pixels, glyph outlines, transformed points, gradients and rendered pixels - is the same on every supported CPU feature level of the machine.",
  ["configurations", "inputs"], "all workloads under every CPU feature level (baseline SSE2 up to AVX2/AVX-512)",
  "Tests run with the one feature level the build selects.",
  ["blend2d/core/runtime.cpp", "blend2d/core/pixelconverter_avx2.cpp", "blend2d/codec/pngops_avx.cpp", "blend2d/compression/deflatedecoderfast_avx2.cpp", "blend2d/opentype/otglyf_avx2.cpp", "blend2d/opentype/otglyf_sse4_2.cpp", "blend2d/pixelops/interpolation_avx2.cpp", "blend2d/core/matrix_avx.cpp", "blend2d/compression/checksum_sse4_2.cpp"],
  [("function table selection at init", "blend2d/core/runtime.cpp and *_rt_init")], observe=["digests of all outputs per feature level"],
  hook="environment-selected CPU feature mask at runtime initialisation (guarded)")

p("P36", "File operations transfer exactly the bytes requested",
  "Reading, writing, seeking, truncating and querying files through the file API, and whole-file reads and writes including memory-mapped ones, transfer exactly the bytes requested at the right position and report counts, sizes and errors correctly, also when the operating system transfers less than asked, is interrupted or fails midway. A failed operation reports an error and leaves handles and destination arrays valid, and no descriptor leaks.",
  ["histories", "fault_sequences"], "all operation histories, file sizes, read limits, and injected short/interrupted/failed system calls",
  "No test exercises the file API beyond loading resources.",
  ["blend2d/core/filesystem.cpp", "blend2d/core/filesystem.h", "blend2d/core/filesystem_p.h"],
  [("read/write loops, mmap fallback", "blend2d/core/filesystem.cpp")], observe=["file contents by POSIX calls, results, descriptor table"])

p("P37", "Extreme and invalid arguments are rejected or harmless",
  "Every API call given any combination of argument values a C caller can pass - non-finite or huge numbers, empty or inverted rectangles, out-of-range enumerations, degenerate paths and matrices, zero sizes, oversized dimensions - returns (an error or a success) in bounded time without undefined behaviour, and leaves all objects usable.",
  ["inputs"], "all numeric and enumeration argument values over all public entry points, null pointers excluded where not allowed",
  "Tests pass ordinary arguments.",
  ["blend2d/core/context.cpp", "blend2d/raster/rastercontext.cpp", "blend2d/core/path.cpp", "blend2d/core/pathstroke.cpp", "blend2d/core/image.cpp", "blend2d/core/gradient.cpp", "blend2d/core/matrix.cpp", "blend2d/raster/edgebuilder_p.h", "blend2d/pipeline/pipedefs.cpp"],
  [("argument validation", "public C API functions")], observe=["UBSan/ASan, watchdog on logical work, probe operations afterwards"])

p("P38", "Transforms follow matrix algebra",
  "Matrix construction, composition (pre/post variants), inversion, type classification and mapping of points, vectors and arrays agree with 2x3 matrix algebra within floating point rounding, for every matrix and array length and alignment; classification never claims a simpler type than the matrix has, and a singular matrix is reported as not invertible.",
  ["inputs"], "all matrices and operation sequences, array sizes and alignments",
  "Unit tests check a few matrices.",
  ["blend2d/core/matrix.cpp", "blend2d/core/matrix.h", "blend2d/core/matrix_sse2.cpp", "blend2d/core/matrix_avx.cpp"],
  [("type-dispatched map functions", "blend2d/core/matrix.cpp, matrix_sse2.cpp, matrix_avx.cpp")], observe=["mapped points and matrices against long double algebra"])

p("P39", "The font manager answers queries consistently",
  "After any history of adding faces (from any number of threads), the font manager's face and family counts, membership, by-family listing and best-match query agree with a simple model of the added set, whatever the name's case or length; a query never returns a face that was not added, and the same face added twice counts once.",
  ["histories", "schedules"], "all histories of additions and queries over many faces",
  "No test uses more than one face.",
  ["blend2d/core/fontmanager.cpp", "blend2d/support/arenahashmap.cpp", "blend2d/opentype/otname.cpp"],
  [("family hash map and ordered face lists", "blend2d/core/fontmanager.cpp")], observe=["counts and query results"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
