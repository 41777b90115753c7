#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json (run from /verif: python3 tools/props.py)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, claimed=True, technique=None, note=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, observe=observe, state=state or [], claimed=claimed, technique=technique, note=note))

TT, GL, HI, FA = "truetype/truetype.go", "truetype/glyph.go", "truetype/hint.go", "truetype/face.go"
RA, GE, PA, ST, FT = "raster/raster.go", "raster/geom.go", "raster/paint.go", "raster/stroke.go", "freetype.go"

# ---------------------------------------------------------------- fonts
prop("F01", "Parsing any byte string yields a font or a typed error, never a crash",
 "For every byte string, parsing returns either a font or one of the package's format / unsupported-feature errors: it never panics, never runs on without end and never modifies its input. The memory it allocates is bounded by a small multiple of the input's length.",
 ["inputs"], "all byte strings, in particular valid fonts with any bytes, lengths, offsets or counts damaged or truncated at any point",
 "TestParse opens one intact font; no test gives Parse a malformed or truncated input.",
 [TT], [("table directory bounds checks", TT+" readTable, parse"), ("cmap / kern / hhea / maxp / head sanity checks", TT+" parseCmap, parseKern, parseHhea, parseMaxp, parseHead")],
 ["truetype.Parse", "freetype.ParseFont"],
 technique="structure-aware mutation fuzzing of generated and real fonts with a totality / typed-error / allocation-bound / input-unchanged oracle",
 note="Exploration: random structured mutation; no claim of absence. Trusts the Go runtime's panic and allocation accounting.")
prop("F02", "Queries on any accepted font never crash",
 "Once parsing has accepted a byte string, however malformed, asking that font for a glyph index, horizontal or vertical metric, kerning value, bounding box, units per em or name never panics, whatever the rune, glyph index, glyph pair, name ID or scale. Glyph indices outside the font have zero metrics, and a name that is missing or lies outside the data is the empty string.",
 ["inputs"], "all byte strings accepted by the parser, times all query arguments including negative runes, out-of-range indices and extreme scales",
 "The tests query three intact fonts with in-range arguments only.",
 [TT], [("bounds checks in the query methods", TT+" Index, Name, unscaledHMetric, unscaledVMetric, Kern")],
 ["Font.Index", "Font.HMetric", "Font.VMetric", "Font.Kern", "Font.Bounds", "Font.Name"],
 technique="structure-aware mutation fuzzing, totality oracle plus definite results for out-of-range arguments",
 note="Exploration over mutated fonts that the parser still accepts.")
prop("F03", "A rune maps to exactly the glyph the font's character map assigns",
 "For every well-formed font with a format 4 (segment) or format 12 (group) character map and for every rune, the glyph index is the one the map assigns, whether by offset from the segment start or through the segment's glyph array (a non-zero array entry has the segment's delta added, modulo 65536), and is 0 for every rune the map does not cover. When a font offers several encodings, a Unicode one (platform 0, encoding 3 or 4) is used in preference to a Microsoft one (platform 3, encoding 0, 1 or 10), and encodings of other kinds are passed over.",
 ["inputs"], "all well-formed character maps (any number, width, adjacency and order of segments permitted by the format; any subset of encodings) and all runes, including those at and just beyond segment edges and beyond the BMP",
 "TestIndex looks up eight runes in one font; no test has a format 12 map, a glyph array, or several encodings.",
 [TT], [("encoding choice", TT+" parseSubtables"), ("segment decoding", TT+" parseCmap"), ("binary search", TT+" Font.Index")],
 ["Font.Index"],
 technique="model-based: random rune->glyph maps encoded by an independent encoder, every edge rune compared with the model; exhaustive comparison on real fonts with an independent decoder",
 note="Exploration. The oracle is the generated map itself (and a linear-scan decoder of the raw table for real fonts).")
prop("F04", "Metrics are the font's design values scaled and rounded to nearest",
 "For every well-formed font, glyph and scale, the advance width, left side bearing, advance height, top side bearing and font bounding box equal the design value times scale divided by the units per em, rounded to the nearest integer with halves away from zero (as long as the product fits in 32 bits). Glyphs past the last full horizontal record share that record's advance and keep their own bearing; a vertical record is used where the font has one for the glyph, else the OS/2 typographic ascender and descender, else the em size with bearing 0; glyph indices outside the font have all-zero metrics.",
 ["inputs"], "all metric tables (record counts, signs, presence of the optional tables), all glyph indices and all scales",
 "TestParse checks one glyph of one font at one scale (the identity scale).",
 [TT], [("table lookup", TT+" unscaledHMetric, unscaledVMetric"), ("rounding", TT+" Font.scale, Font.Bounds")],
 ["Font.HMetric", "Font.VMetric", "Font.Bounds", "Font.FUnitsPerEm"],
 technique="model-based: generated metric tables, exact integer oracle computed from the model",
 note="Exploration with an exact oracle.")
prop("F05", "Kerning is exactly what the font's pair table says",
 "For every well-formed font with a horizontal kerning table and every ordered pair of glyphs, the kerning is the value listed for that pair, scaled and rounded to nearest with halves away from zero, and is 0 for every pair that is not listed, including the reversed pair and pairs next to a listed one. A font without a kerning table kerns nothing.",
 ["inputs"], "all sorted pair tables (0 to thousands of pairs, any glyph numbers), all queried pairs, all scales",
 "TestParse looks up one pair in one font.",
 [TT], [("pair table header checks", TT+" parseKern"), ("binary search", TT+" Font.Kern")],
 ["Font.Kern"],
 technique="model-based: generated pair tables against a map, queries at and around every listed pair",
 note="Exploration with an exact oracle.")
prop("F06", "Font names are read from the right record and sanitised",
 "For every well-formed naming table and every name ID, the name returned is the string of that ID's record (a Unicode-platform record, encoding 3 or 4, in preference to a Microsoft one, encoding 0, 1 or 10; Macintosh records are not read), wherever in the table its bytes lie, with every character outside printable ASCII replaced by a question mark. It is the empty string when the font has no such record or the record's bytes are missing or have an odd length.",
 ["inputs"], "all naming tables (any records, platforms, order, overlapping or distant string storage) and all name IDs",
 "TestName reads the family name of three fonts.",
 [TT], [("record choice", TT+" parseSubtables, Font.Name"), ("character sanitising", TT+" printable")],
 ["Font.Name"],
 technique="model-based: generated naming tables with shuffled string storage, exact oracle",
 note="Exploration with an exact oracle.")
prop("F07", "What a font says does not depend on how its file is laid out",
 "Two files that contain the same tables give the same results for every query and every glyph, whatever the order of the directory, the order, padding and overlap of the table data, additional unknown tables, or wrapping in a TrueType collection, where the first font of the collection is the one that is read. Neither parsing nor any later use modifies the bytes that were parsed.",
 ["inputs"], "all fonts, all layouts of the same tables, all collections with that font first",
 "The tests open three files with the standard layout and no collection.",
 [TT], [("table directory walk", TT+" parse, readTable"), ("collection header", TT+" parse")],
 ["truetype.Parse", "all Font methods", "GlyphBuf.Load"],
 technique="metamorphic: relayout / TTC-wrap of generated and real fonts, complete query-and-glyph comparison with the original",
 note="Exploration with an exact metamorphic oracle.")
# ---------------------------------------------------------------- glyphs
prop("G01", "Loading any glyph of any accepted font ends in an outline or an error",
 "For every byte string the parser accepts, every glyph index, scale and hinting mode, loading the glyph returns an error or a well-formed outline, without panicking and without running on for ever. Well-formed means: contour ends do not decrease, the last one equals the number of points, and the bounding box encloses every point; in particular glyph data that is truncated after its 10-byte header, glyph indices outside the font and compound glyphs that contain themselves are errors (data shorter than the header is an empty glyph, and instructions that are not run need not be there).",
 ["inputs"], "all accepted byte strings (glyph data, offsets and counts damaged in any way), all glyph indices, scales and hinting modes",
 "The tests load the intact glyphs of one font at one size.",
 [GL, HI], [("glyph data bounds checks", GL+" load, loadSimple, loadCompound"), ("recursion limit", GL+" load")],
 ["GlyphBuf.Load"],
 technique="structure-aware mutation fuzzing with totality and outline well-formedness oracles, CPU-bounded re-execution for hangs",
 note="Exploration. Non-termination is reported only for a case that burns more than 40 CPU seconds in an isolated re-run.")
prop("G02", "Simple glyph outlines are decoded point for point",
 "For every simple glyph, loading it without hinting at a scale equal to the units per em gives exactly its points, on-curve flags and contour ends, whichever of the permitted encodings (short or long deltas, omitted zero deltas, repeated flags, any instruction block) stores them. At any other scale each co-ordinate is the design value times scale over units per em rounded to nearest with halves away from zero, as long as the products fit in 32 bits. At every scale each X is moved by the scaled difference of the glyph's left side bearing and its least X, so that the left side bearing point is the origin.",
 ["inputs"], "all simple outlines (any number of contours and points, any co-ordinates), all encodings of them, both location-table formats, all scales",
 "The tests compare one font's glyphs at one size; encodings that font does not use are never decoded.",
 [GL], [("flag and delta decoding", GL+" loadSimple"), ("scaling and origin shift", GL+" addPhantomsAndScale, Load")],
 ["GlyphBuf.Points", "GlyphBuf.Ends"],
 technique="round-trip: random outlines through an independent randomised encoder, exact comparison",
 note="Exploration with an exact oracle.")
prop("G03", "Compound glyphs are the placed union of their components",
 "For every compound glyph with at most one component marked to supply metrics, loading it without hinting gives the components' outlines in order, each transformed by the component's scale, x-and-y scale or 2x2 matrix, moved by the component's scaled offset (rounded to whole pixels when the component asks for that), and with contour ends renumbered, to any nesting depth below the limit. A compound glyph that reaches itself, or is nested 32 levels deep or more, is an error. Products are rounded to nearest. A component placed by matching points is reported as an unsupported feature, and a glyph of thousands of components or hundreds of thousands of points may be an error.",
 ["inputs"], "all compound glyphs over all component graphs (nesting, repeated and empty components, all offset and transform forms), all scales",
 "The only compound glyphs tested are the accented letters of one font, which use offsets alone.",
 [GL], [("component records", GL+" loadCompound"), ("recursion", GL+" load")],
 ["GlyphBuf.Points", "GlyphBuf.Ends"],
 technique="model-based: random component graphs, independent recursive reference composition, exact comparison",
 note="Exploration with an exact oracle.")
prop("G04", "A loaded glyph's advance and bounds agree with its font and its points",
 "After any successful load, the bounding box is the exact range of the outline's points, widened to whole pixels when hinting is on, and is empty for an empty outline. Without hinting the advance width is the scaled distance between the glyph's two horizontal metric points; with hinting it is a whole number of pixels, and is the font's device-metrics entry for that pixel size and glyph when there is one; a compound glyph takes its advance and origin from the component marked to supply metrics, and otherwise from its own metrics.",
 ["inputs"], "all glyphs, metric tables, device-metrics tables, scales and hinting modes",
 "Advance and box are compared for one font at one size, without device metrics.",
 [GL, TT], [("phantom points", GL+" load, addPhantomsAndScale"), ("device metrics and control box", GL+" Load")],
 ["GlyphBuf.AdvanceWidth", "GlyphBuf.Bounds"],
 technique="model-based: generated fonts with hdmx, lsb != xMin and use-my-metrics components, exact oracle; invariant over every load of real fonts",
 note="Exploration with an exact oracle.")
prop("G05", "Re-using a glyph buffer never changes what is loaded",
 "Loading a glyph into a buffer that has been used for any earlier sequence of loads, of any glyphs, fonts, scales and hinting modes, successful or not, gives exactly the result that a new buffer gives: the same error or the same points, unhinted points, contours, bounds and advance. In particular nothing that one glyph's or one font's instructions wrote leaks into the next glyph or font.",
 ["histories", "inputs"], "all finite sequences of loads on one buffer over any set of fonts, compared with a fresh buffer for each",
 "The tests load one font's glyphs in order at one size.",
 [GL, HI], [("buffer reset", GL+" Load"), ("interpreter re-initialisation", HI+" hinter.init")],
 ["GlyphBuf.Load on one buffer"],
 state=[dict(name="hinter", meaning="interpreter state kept between loads: functions, storage, control values, twilight points", where=HI)],
 technique="stateful: random load sequences over real and generated fonts, each step compared with a fresh buffer",
 note="Exploration with an exact differential oracle.")
# ---------------------------------------------------------------- hinting
prop("H01", "The interpreter computes what the instruction set specifies",
 "For every glyph program, the stack, arithmetic (26.6 fixed point), comparison, logical, rounding-mode, storage, control-value and control-flow instructions (jumps, conditionals, functions, loops) have the effect the TrueType instruction set defines for them, so that the values a program computes and the error or success it ends with are those of the specification. Stack underflow, division by zero, undefined functions, bad storage indices, delta shifts outside 0 to 6 and unknown instructions end the program with an error; a control value that does not exist reads as 0 and writing it does nothing. (A distance in font units converted to pixels is in scope as long as its product with the scale fits in 32 bits.)",
 ["programs"], "all well-formed programs over the computing instructions, all operand values, all rounding modes and pixel sizes",
 "TestBytecode runs about forty hand-written programs with one or two operand values each.",
 [HI, "truetype/opcodes.go"], [("instruction dispatch", HI+" hinter.run"), ("fixed-point helpers", HI+" fdiv, fmul, round")],
 ["GlyphBuf.Load with hinting on generated fonts (values are read back through point co-ordinates)"],
 technique="differential: random programs embedded in generated fonts, against an independent reference interpreter, observed only through loaded points",
 note="Exploration. The reference interpreter was written from the instruction-set manual; where the manual leaves rounding open it follows FreeType 2.5.1 as the package documents.")
prop("H02", "Point-moving instructions move exactly the points they should",
 "For every outline and program, the instructions that set vectors, reference points and zones and that move, align, shift, interpolate, flip or intersect points leave every point with the co-ordinates and on-curve state that the TrueType instruction set defines, along the freedom vector and measured along the projection vector, in the glyph zone as in the twilight zone. Points an instruction does not name are left alone. (Instructions the package documents as unimplemented, and vectors within rounding of an axis, are outside this statement.)",
 ["programs", "inputs"], "all outlines and all well-formed programs over the point-moving instructions, all vectors, zones, reference points, cut-ins and pixel sizes",
 "TestMove checks one move primitive; only the luxi fonts' programs at 12 pixels per em exercise the instructions, many of which they never use.",
 [HI], [("instruction dispatch", HI+" hinter.run"), ("move, displacement, interpolation", HI+" move, displacement, iupInterp, iupShift, dotProduct, normalize")],
 ["GlyphBuf.Points after a hinted load"],
 technique="differential: random point programs in generated fonts against an independent reference interpreter",
 note="Exploration; same trust as H01.")
prop("H03", "Font, control-value and glyph programs share state as specified",
 "Functions defined by the font program, and control values, storage, twilight points and graphics state set by the control-value program, are in effect for every glyph program at that size, except that the vectors, reference points, zone pointers and loop count always start from their defaults. The control-value program runs again, from default state and freshly scaled control values, whenever the size changes; control values are the font's values scaled and rounded to nearest (as long as value times scale fits in 32 bits).",
 ["programs", "histories"], "all font/control-value/glyph program triples and all sequences of sizes",
 "Only the luxi fonts' own programs at one size are run; no test changes size on one buffer.",
 [HI], [("program life cycle", HI+" hinter.init"), ("default graphics state", HI+" defaultGS"), ("control values", HI+" initializeScaledCVT")],
 ["GlyphBuf.Load with hinting"],
 technique="differential: random program triples and size sequences against the reference interpreter's life cycle",
 note="Exploration; same trust as H01.")
prop("H04", "No bytecode can crash or hang the interpreter",
 "For every font program, control-value program and glyph program made of arbitrary bytes, and every outline, a hinted load returns, with either an error or a well-formed outline. No operand, point, zone, contour, function or jump target, however extreme, makes it panic, and an endless program is cut off with an error.",
 ["programs"], "all byte strings as programs, biased to valid instructions with extreme operands",
 "TestBytecode has a handful of error cases.",
 [HI], [("step and call-stack limits", HI+" hinter.run"), ("operand checks", HI+" point, getScaledCVT, setScaledCVT")],
 ["GlyphBuf.Load with hinting"],
 technique="grammar-based bytecode fuzzing with totality and well-formedness oracles, CPU-bounded re-execution for hangs",
 note="Exploration.")
prop("H05", "Real fonts are hinted as the instruction set prescribes at every size",
 "For the fonts at hand (the luxi and Go families), every glyph and every pixel size, the outline under full or vertical hinting, its advance width and its bounds are those that the fonts' own programs produce under the TrueType instruction set.",
 ["inputs", "configurations"], "all glyphs of 15 instructed fonts times all scales up to 200 pixels per em, fractional sizes included",
 "The tests compare one font at 12 pixels per em.",
 [HI, GL], [("interpreter", HI), ("hinted loading", GL+" load, loadSimple, loadCompound")],
 ["GlyphBuf.Load with hinting"],
 technique="differential: sampled (font, glyph, size) triples against an independent loader and reference interpreter",
 note="Exploration; the reference was cross-checked once against FreeType's recorded 12 pt outlines in testdata.")
# ---------------------------------------------------------------- raster
prop("R01", "Rasterization emits clean, ordered, in-bounds spans",
 "For every path and every size of rasterizer, the spans passed to the painter have positive width, non-zero alpha of at most 0xffff, lie inside the width and height (displaced by the paint offset), do not overlap, and come sorted by row and then column across all batches. The painter is told that it has seen the last batch exactly once, at the end.",
 ["inputs"], "all sequences of segments (inside, straddling and outside the bounds), all bounds, both fill rules, all offsets",
 "No test covers the raster package; the two benchmarks only need it not to panic.",
 [RA], [("cell sweep", RA+" Rasterize"), ("cell insertion", RA+" findCell, saveCell")],
 ["Painter.Paint"],
 technique="invariant checking over random paths (thousands of cells per image), span-stream validity predicate",
 note="Exploration.")
prop("R02", "Filled polygons cover each pixel by its exact area",
 "For every closed polygonal path, wherever it lies relative to the image, a pixel that no edge comes within 1/32 of a pixel of is exactly transparent or exactly opaque, according to the winding number there and the fill rule (even-odd, or non-zero). Any other pixel has an alpha within 1/32 per such edge of the area of the pixel inside the polygon, where areas of higher winding number accumulate and are folded (even-odd) or capped (non-zero). (For co-ordinates of up to two million pixels.)",
 ["inputs"], "all polygons with co-ordinates in sixty-fourths of a pixel, including those partly or wholly outside the bounds on any side, self-intersecting and multiply wound, in rasterizers of any size",
 "No test looks at a pixel.",
 [RA], [("edge walking", RA+" Add1, scan"), ("area to alpha", RA+" areaToAlpha"), ("cell storage", RA+" findCell")],
 ["Painter.Paint"],
 technique="differential: random polygons against an exact-area reference rasterizer",
 note="Exploration, with a stated tolerance for the fixed-point stepping.")
prop("R03", "Curves are filled as the curves they are",
 "For every closed path with quadratic and cubic Bezier segments, every pixel that the boundary does not come within 0.3 of a pixel of (0.2 on images of up to 120 pixels, 0.15 up to 24) is exactly transparent or exactly opaque, according to the winding number and fill rule, and the alpha of every other pixel is within 0.5 (0.3, 0.2) per piece of boundary near it of the true covered area. A curve whose control points are evenly spaced on its chord fills like the straight line, and splitting a curve or reversing the path changes no pixel by more than that tolerance. (For co-ordinates of up to two million pixels.)",
 ["inputs"], "all closed paths of lines, quadratics and cubics in the image's neighbourhood, all rasterizer sizes",
 "No test looks at a pixel.",
 [RA], [("curve subdivision", RA+" Add2, Add3")],
 ["Painter.Paint"],
 technique="differential: random curved paths against an exact-area rasterizer of a fine flattening",
 note="Exploration, tolerance as stated (the rasterizer deliberately flattens curves coarsely).")
prop("R04", "A rasterizer's past never shows in its output",
 "After clearing or resizing, a rasterizer that has been used in any way produces exactly the spans a new one of that size and fill rule produces for the same path, and rasterizing twice without clearing produces the same spans twice. Adding a recorded path equals adding its segments one by one, drawing offsets displace all spans and change nothing else, and moving a polygon by whole pixels moves its picture exactly.",
 ["histories", "inputs"], "all interleavings of start, line, quadratic, cubic, path, clear, resize and rasterize calls",
 "No test covers the raster package.",
 [RA], [("reset", RA+" Clear, SetBounds"), ("buffers", RA+" findCell, cellBuf, cellIndexBuf")],
 ["Painter.Paint"],
 technique="stateful: random operation histories on one rasterizer, each picture compared with a fresh rasterizer's",
 note="Exploration with an exact oracle.")
prop("R05", "Stroking a polyline covers exactly the pixels near the line",
 "Stroking any path of one or more open polylines, with segments longer than the stroke width, and filling it by the non-zero rule makes every pixel that lies wholly inside the stroke opaque and leaves every pixel wholly outside transparent: with round caps and joins the stroke is all points within half the width of the line; butt caps end it flat at the end points, square caps half a width beyond them; bevel joins cut the outer corner straight. Missing cap or join styles mean round ones, and a margin of 2% of the width plus a sixteenth of a pixel is allowed either way (strokes thinner than 1 1/4 pixels may have any join). Repeating a point of the path changes nothing.",
 ["inputs"], "all polylines (any number, turning angles up to and including reversal), widths, cap and join styles",
 "No test covers stroking.",
 [ST, GE], [("offset curves, caps and joins", ST+" stroker, roundCapper, squareCapper, buttCapper, roundJoiner, bevelJoiner, addArc"), ("vector helpers", GE)],
 ["raster.Stroke", "Rasterizer.AddStroke"],
 technique="geometric oracle: distance-field and half-plane predicates per pixel on random polylines",
 note="Exploration, tolerance as stated.")
prop("R06", "Stroking curves follows the curve at constant width",
 "Stroking any path of quadratic curves (mixed with lines) with round caps and joins and filling it by the non-zero rule leaves transparent every pixel farther from the curve than half the width plus a margin of 5% of the width and half a pixel, hairpin bends, near-straight curves and control points that coincide with an end included. It makes opaque every pixel nearer than half the width less the margin (and less one more pixel near a kink) to a stretch of the curve that bends no more tightly than the stroke is wide and has no other part of the path near it, and also around the exact hairpin of a lone quadratic.",
 ["inputs"], "all chains of quadratic and linear segments, short ones in smooth curves included, all widths from 1 1/4 pixels",
 "No test covers stroking.",
 [ST], [("curvature split and offsetting", ST+" Add2, addNonCurvy2, curviest2")],
 ["raster.Stroke"],
 technique="geometric oracle: distance to a fine flattening of the curve, per pixel",
 note="Exploration, tolerance as stated in DESIGN.md.")
prop("R07", "A recorded path replays to the same calls",
 "A path to which starts, lines, quadratics and cubics have been added replays, into a rasterizer or when appended to another path, as exactly those calls in order, and prints as their readable list; clearing it empties it. Stroking into a recorded path and replaying it equals stroking directly, and a stroke of several curves is the sequence of the strokes of each; caps and joins supplied by the caller are called once per curve end and once per interior node, with the pivot point and normals of half the stroke width, and whatever they add is part of the stroke (what a join adds to the right-hand side comes in reverse).",
 ["histories", "inputs"], "all sequences of path operations, all cap and join implementations, including ones that add quadratics and cubics",
 "No test covers paths.",
 [GE, ST, RA], [("recording", GE+" Path.Start, Add1, Add2, Add3, AddPath, String"), ("replay", RA+" AddPath"), ("reversal", GE+" addPathReversed")],
 ["raster.Path", "raster.Adder passed to Stroke"],
 technique="model-based: recorded call lists compared with the model, custom Adder/Capper/Joiner spies",
 note="Exploration with an exact oracle.")
prop("R08", "Stroking any path ends in a closed outline near the path",
 "For every path of lines and quadratics, however its points are placed (thousands of pixels apart, in line, or on top of one another), every width and every cap and join style, stroking returns without panicking. Each curve of the path that goes anywhere gives exactly one closed curve, all of whose points lie within half the width of the curve's control polygon (with square caps, times the square root of two), except for rounding and an allowance of 15% for the control points of arcs; a curve that stays on one point gives nothing. Moving a path of lines moves its stroke by exactly as much. (As long as the co-ordinates and their products with small factors fit in 32 bits.)",
 ["inputs"], "all paths of lines and quadratics with co-ordinates of up to 2^27 units, all widths of up to 4096 pixels",
 "No test covers stroking.",
 [ST, GE], [("subdivision and its stack", ST+" addNonCurvy2, Add2, curviest2, interpolate"), ("degenerate segments", ST+" Add1, Add2; "+GE+" pNorm"), ("closing the stroke", ST+" stroke")],
 ["raster.Stroke", "raster.Path.AddStroke"],
 technique="generated paths, mostly degenerate ones, against invariants of the stroke's points and a metamorphic relation",
 note="Exploration; the points are compared with the control polygon exactly up to the stated allowance.")
# ---------------------------------------------------------------- painters
prop("P01", "Alpha painters composite spans exactly and only inside the image",
 "For every batch of row-sorted spans and every alpha image, whatever its origin, stride or parent image, painting changes exactly the pixels both in the image and in a span: under Src to the span's alpha in 8 bits, under Over to the Porter-Duff sum of the old value and the span's 8-bit alpha over the remainder, rounded down. All other bytes of the underlying buffer are left alone.",
 ["inputs"], "all images (sub-images, negative origins, empty) and all row-sorted span lists, including spans partly or wholly outside",
 "No test covers the painters.",
 [PA], [("clipping and composition", PA+" AlphaSrcPainter.Paint, AlphaOverPainter.Paint")],
 ["image.Alpha.Pix"],
 technique="differential: random images and span lists against a per-pixel reference",
 note="Exploration with an exact oracle.")
prop("P02", "RGBA painting equals the standard library's masked drawing",
 "For every colour, operator, span list and RGBA image, painting spans gives bit for bit the image that the standard image/draw package gives when it draws that uniform colour through a mask with the spans' alpha, under Over, and the colour scaled by the span's alpha under Src. Pixels outside the spans or the image are left alone.",
 ["inputs"], "all colours (translucent included), both operators, all RGBA images including sub-images, all row-sorted span lists",
 "No test covers the painters.",
 [PA], [("composition", PA+" RGBAPainter.Paint, SetColor")],
 ["image.RGBA.Pix"],
 technique="differential: image/draw.DrawMask with a 16-bit mask as the reference",
 note="Exploration; trusts the standard library's image/draw.")
prop("P03", "Monochrome painting is a threshold, whatever the batching",
 "For every row-sorted, non-overlapping span stream and every way of cutting it into batches, the monochrome painter forwards fully opaque spans that cover exactly the pixels whose alpha is at least one half, in order and without overlap, with adjacent spans on a row merged. It signals the end exactly once per stream, and can then be used for another stream as if new.",
 ["histories", "inputs"], "all span streams, all batch boundaries, all repeated uses of one painter",
 "No test covers the painters.",
 [PA], [("accumulator", PA+" MonochromePainter.Paint")],
 ["wrapped Painter.Paint"],
 state=[dict(name="pending span", meaning="the span being extended across batches", where=PA)],
 technique="model-based: random span streams with random batch cuts against a per-pixel threshold model",
 note="Exploration with an exact oracle.")
prop("P04", "Gamma painting maps alpha by the power curve and nothing else",
 "For every gamma and span stream, the gamma painter forwards the same spans with the same batching and only alpha changed: alpha 0 and full alpha are fixed, the map is non-decreasing, multiples of 0x101 map to within one unit of the power curve, and other values lie between their neighbours by linear interpolation. Gamma 1 changes nothing, and setting a new gamma leaves no trace of the old.",
 ["inputs", "histories"], "all positive gammas, all alphas, all span streams, all sequences of gamma settings",
 "No test covers the painters.",
 [PA], [("lookup table", PA+" SetGamma"), ("interpolation", PA+" GammaCorrectionPainter.Paint")],
 ["wrapped Painter.Paint"],
 technique="exhaustive over all 65536 alphas per generated gamma, against the power curve",
 note="Exploration; exact up to the stated one-unit tolerance.")
# ---------------------------------------------------------------- face
prop("A01", "A face draws the whole glyph, in the right place, and nothing else",
 "For every well-formed font, size, hinting mode, rune and dot position, drawing the face's mask through the rectangle and mask point it returns gives a picture of the glyph's outline, filled by the non-zero winding rule and placed at the dot (after rounding the dot to the sub-pixel grid, to either neighbour on a tie). Each pixel's alpha is the covered area within the rasteriser's tolerance (about 1/32 per straight edge and 0.3 per curve near the pixel), and exactly none or full where no edge passes within about a quarter pixel. No part of the outline is cut off, whatever bounding box the font states, and no pixel of any other glyph appears.",
 ["inputs", "configurations"], "all fonts, all runes, dots, sizes, hinting modes and sub-pixel settings",
 "One benchmark draws text and looks at no pixel.",
 [FA], [("mask placement", FA+" Glyph, rasterize"), ("contour conversion", FA+" drawContour"), ("mask slots", FA+" NewFace, facePainter.Paint")],
 ["font.Face.Glyph"],
 technique="differential: real and generated fonts, mask compared with an exact-area rendering of the loaded outline",
 note="Exploration, tolerance as stated.")
prop("A02", "The glyph cache of a face is invisible",
 "What a face returns for a rune at a dot (rectangle, advance and the mask pixels inside the rectangle) is exactly what a new face with the same options returns, whatever glyphs, metrics and kerning were asked of it before, for every cache size and sub-pixel setting. Moving the dot by whole pixels moves the rectangle by as much and changes nothing else.",
 ["histories", "configurations"], "all histories of face calls, all cache sizes from 1 up, all sub-pixel settings",
 "The benchmark runs one history and looks at no result.",
 [FA], [("cache key and slot", FA+" Glyph, glyphCacheKey"), ("rune cache", FA+" index")],
 ["font.Face.Glyph, GlyphAdvance, GlyphBounds, Kern"],
 state=[dict(name="glyph cache", meaning="mask slots and their keys", where=FA), dict(name="rune cache", meaning="256 recent rune to glyph mappings", where=FA)],
 technique="stateful: random call histories with tiny caches, each answer compared with a fresh face's",
 note="Exploration with an exact differential oracle.")
prop("A03", "A face's metrics, advances, bounds and kerning are its font's",
 "For every font, options and rune, a face's glyph advance and bounds are those of the glyph loaded at that size and hinting (bounds with Y downwards), the advance returned with the glyph image is the same, and kerning is the font's for that size, rounded to whole pixels under hinting. Its height is the size in pixels to the nearest 1/64, and ascent and descent are the font's, scaled and rounded up; measuring a string equals the distance drawing it moves the dot.",
 ["inputs", "configurations"], "all fonts, option values, runes and rune pairs",
 "No test covers the face type.",
 [FA], [("metrics", FA+" Metrics, GlyphAdvance, GlyphBounds, Kern")],
 ["font.Face methods", "font.Drawer"],
 technique="model-based: random options and runes, exact oracle from the font's own tables",
 note="Exploration with an exact oracle.")
prop("A04", "Face options mean what they say",
 "An omitted or zero option equals its documented default (12 points, 72 DPI, no hinting, 512 cache entries, 4 horizontal and 1 vertical sub-pixel positions), and a size in points at a resolution equals any other pair with the same product. The dot is rounded to the nearest (on a tie, either) of exactly the requested number of positions per pixel, independently for the horizontal and the vertical setting, so dots that round alike give identical pictures and dots that differ by a step are drawn a step apart.",
 ["configurations", "inputs"], "all option values including zero and the documented powers of two, all dots",
 "The benchmark uses nil options only.",
 [FA], [("option defaults", FA+" Options"), ("quantisation", FA+" subPixels, Glyph")],
 ["truetype.NewFace", "font.Face.Glyph"],
 technique="metamorphic: option pairs that must agree, and dot sweeps over the 64x64 sub-pixel grid that must agree exactly or be displaced",
 note="Exploration.")
# ---------------------------------------------------------------- context
prop("C01", "Drawing text moves the pen by exactly the advances and kerning",
 "For every string, position, font, size, resolution and hinting mode, drawing a string returns the position moved right by the sum of the glyphs' advance widths and the kerning between neighbours (rounded to whole pixels under hinting), independent of destination, clip and what was drawn before. Drawing a string in two parts, with the kerning between them, ends at the same position; points convert to pixels as points times resolution over 72, and a new context draws at 12 points and 72 dots per inch until told otherwise. (A size that is no whole number of 1/64 pixels may be taken as either neighbour.)",
 ["inputs", "histories"], "all strings (invalid UTF-8 included), positions, fonts, sizes, resolutions, hinting modes",
 "The benchmark ignores the returned position.",
 [FT], [("pen advance", FT+" DrawString"), ("unit conversion", FT+" PointToFixed, Pt, recalc")],
 ["Context.DrawString", "Context.PointToFixed", "freetype.Pt"],
 technique="model-based: pen position predicted from font queries, exact comparison over random strings and setting histories",
 note="Exploration with an exact oracle.")
prop("C02", "Clipping text only removes pixels",
 "For every clip rectangle, drawing text changes exactly the pixels inside the clip and the destination, and gives them exactly the colours they get when the same text is drawn with no clip. This holds whichever edge of the clip or destination cuts a glyph, and for an empty clip.",
 ["inputs"], "all clip rectangles and destinations (sub-images included), strings, positions, source colours and source images",
 "The benchmark clips to the whole image and looks at no pixel.",
 [FT], [("clip and mask alignment", FT+" DrawString")],
 ["Context.SetClip", "Context.SetDst", "Context.DrawString"],
 technique="metamorphic: clipped drawing against the restriction of unclipped drawing, exact",
 note="Exploration with an exact oracle.")
prop("C03", "Drawn text is the text, under the settings in force",
 "Whatever was drawn and whichever settings were changed before, in any order, drawing a string composes, in order, each character's glyph in the current font, size, resolution, hinting, source colour and destination at its pen position, where the glyph image may be that of another position, off by the sub-pixel quantisation only (less than a quarter pixel across, less than a pixel down). Settings changed back and forth, or set in another order, draw identically.",
 ["histories", "inputs"], "all histories of setting changes and draws, all strings and positions",
 "The benchmark draws with one set of settings and looks at no pixel.",
 [FT], [("glyph cache", FT+" glyph, cacheEntry"), ("invalidation", FT+" recalc, SetHinting")],
 ["Context.DrawString"],
 state=[dict(name="glyph cache", meaning="1024 masks keyed by glyph and quantised fraction", where=FT)],
 technique="stateful model-based: random setter/draw histories, pictures compared with an independent renderer and with a fresh context",
 note="Exploration, tolerance as stated.")
prop("C04", "Drawing never crashes; what cannot be drawn is an error",
 "For every accepted font, well-formed or damaged, every string, position, size, resolution, hinting mode, clip and destination, drawing returns normally, with an error when a glyph cannot be loaded or is more than 16384 pixels in size, or no font is set; measuring and drawing through a face likewise return and report such glyphs as missing. A failed drawing leaves the context usable: the next drawing of loadable text is as if the failure had not happened.",
 ["inputs", "histories"], "all accepted byte strings as fonts, all strings and settings of moderate size",
 "The benchmarks draw one intact font.",
 [FT, FA], [("error propagation", FT+" DrawString, glyph, rasterize"), ("failure reporting", FA+" Glyph, GlyphAdvance, GlyphBounds")],
 ["Context.DrawString", "font.Face"],
 technique="structure-aware mutation fuzzing through both drawing APIs, totality and recovery oracles",
 note="Exploration.")
prop("C05", "A parsed font can be shared freely",
 "A parsed font never changes: any number of goroutines may query it, load its glyphs and draw with it at the same time, each with its own buffer, face or context, without a data race, and each gets exactly the results it would get alone. No query's answer depends on the queries before it.",
 ["schedules", "histories"], "all interleavings of queries, glyph loads and drawing by several goroutines on one font",
 "No test uses more than one goroutine or repeats a query.",
 [TT, GL, FA, FT], [("font tables are read-only after parsing", TT+" Font"), ("state lives in GlyphBuf / face / Context", GL)],
 ["all exported Font methods, GlyphBuf.Load, NewFace, NewContext"],
 technique="concurrent random workloads under the Go race detector, results compared with a sequential run on a private font",
 note="Exploration of the schedules the Go scheduler produces; the race detector reports unsynchronised access even when the schedule was harmless.")

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["qtext"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=p["state"],
                    mechanism=[dict(name=n, where=w) for n, w in p["mech"]],
                    observe_at=p["observe"], hook_needed=None))) + "\n")
    built = set(open(os.path.join(root, "tools", "built.txt")).read().split())
    checks, na = [], []
    for p in P:
        if p["id"] in built:
            checks.append(dict(property=p["id"], quick_cmd="./run.sh %s quick" % p["id"],
                thorough_cmd="./run.sh %s thorough" % p["id"],
                evidence_file="evidence/%s.json" % p["id"],
                technique="property-based testing: " + p["technique"], level="exploration", level_note=p["note"]))
        else:
            na.append(dict(property=p["id"], reason="Check not built yet (work in progress)."))
    m = dict(version=1, setup_cmd="./run.sh setup", checks=checks, not_applicable=na,
        notes="All checks use only golang/freetype's exported API, built from /repo's working tree through a module overlay; no hooks in /repo are needed.")
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1); f.write("\n")
    print(len(P), "properties,", len(checks), "checks")
