#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the statements are reviewable as text).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None)))

p("C01","Parsing any byte string is safe and yields a font xor a typed error",
 "For every byte string, parsing a TTF or TTC terminates without panicking and returns either a font and a nil error, or a nil font and an error that is a format error or an unsupported-feature error. Every table recorded in an accepted font is exactly the sub-slice of the input that the font's table directory designates.",
 ["inputs"],"all byte strings, of any length and content, as font data",
 "The tests parse three well-formed Luxi fonts; no malformed, truncated or adversarial file is ever parsed.",
 ["truetype/truetype.go","freetype.go"],
 [("Parse/parse directory walk","truetype/truetype.go: parse"),("bounds-checked table slicing","truetype/truetype.go: readTable"),("cmap/head/maxp/hhea/kern sanity checks","truetype/truetype.go: parseCmap, parseHead, parseMaxp, parseHhea, parseKern, parseSubtables")],
 ["truetype.Parse","freetype.ParseFont"])
p("C02","Querying any accepted font never panics",
 "For every font that parsing accepted, and for every rune, glyph index pair, scale and name identifier, the font's index, kern, horizontal and vertical metric, bounds and name queries return normally, whatever the bytes of the font's tables are. A glyph index outside the font has zero metrics, and a missing or malformed name is the empty string.",
 ["inputs"],"all accepted fonts x all query arguments",
 "Tests query a handful of glyphs, pairs and names of well-formed fonts.",
 ["truetype/truetype.go"],
 [("invariants established by parse (table lengths against counts)","truetype/truetype.go: parseHhea, parseKern, parseCmap, parseHead"),("range checks","truetype/truetype.go: Index, Name, unscaledHMetric, unscaledVMetric, Kern")],
 ["Font.Index","Font.Kern","Font.HMetric","Font.VMetric","Font.Bounds","Font.Name"])
p("C03","Runes map to glyphs exactly as the chosen cmap subtable says",
 "For a font whose chosen character map has sorted, disjoint segments, the index of a rune is the glyph that the segment containing the rune assigns to it (start-relative for 32-bit groups; delta, or glyph-array entry plus delta when that entry is not zero, modulo 65536 for 16-bit segments), and 0 when no segment contains it. The segments used are those encoded in the preferred subtable: the first Unicode one if there is one, and otherwise the last Microsoft one.",
 ["inputs"],"all character map tables of formats 4 and 12 x all 2^32 rune values",
 "Tests look up 8 runes in one font, all in format 4 segments without a glyph array.",
 ["truetype/truetype.go"],
 [("subtable choice","truetype/truetype.go: parseSubtables"),("segment decoding","truetype/truetype.go: parseCmap"),("binary search","truetype/truetype.go: Font.Index")],
 ["Font.Index"])
p("C04","Metrics and kerning are the table values scaled and rounded to nearest",
 "For every accepted font, glyph and scale whose product with the table value, plus half the units per em, fits in 32 bits, horizontal metrics, vertical metrics, bounds and kerning equal the value the font's tables give, times the scale, divided by the units per em, rounded to the nearest integer with ties away from zero. Glyphs past the last full horizontal metric repeat its advance; a pair absent from a sorted kerning table has kerning 0 and a present pair has its own value.",
 ["inputs"],"all accepted fonts x glyphs or pairs x scales without 32-bit overflow",
 "TestParse checks one glyph at scale = units per em, where the scaling is the identity and rounding never happens.",
 ["truetype/truetype.go"],
 [("rounding division","truetype/truetype.go: Font.scale"),("metric lookup","truetype/truetype.go: unscaledHMetric, unscaledVMetric, HMetric, VMetric, Bounds"),("kern search","truetype/truetype.go: Font.Kern"),("header decoding","truetype/truetype.go: parseHead, parseHhea, parseMaxp")],
 ["Font.HMetric","Font.VMetric","Font.Bounds","Font.Kern","Font.FUnitsPerEm"])
p("C05","Font names decode to printable ASCII of the stored record",
 "For every accepted font and name identifier, the name is decoded from the bytes of the preferred record with that identifier: one output byte per UTF-16 code unit, or per byte for the Apple platform, equal to the stored character if it is printable ASCII and '?' otherwise. The empty string is returned when no such record exists or its string does not lie inside the name table.",
 ["inputs"],"all name tables x all name identifiers",
 "TestName reads the family name of three fonts.",
 ["truetype/truetype.go"],
 [("record choice","truetype/truetype.go: parseSubtables"),("decoding","truetype/truetype.go: Font.Name, printable")],
 ["Font.Name"])
p("C06","Loading any glyph of any accepted font is safe",
 "For every font that parsing accepted, and every scale, glyph index and hinting mode, loading a glyph into a new or reused glyph buffer terminates without panicking, returning nil or an error. After a successful load the contour ends are positive, non-decreasing and bounded by the number of points, and the bounds contain every point (unless rounding a hinted glyph's bounds up to a whole pixel overflows 32 bits).",
 ["inputs"],"all accepted fonts (any glyf, loca, hmtx, hdmx bytes) x scales x glyph indexes x hinting modes",
 "Tests load the glyphs of one well-formed font at one size.",
 ["truetype/glyph.go","truetype/hint.go"],
 [("glyph location and decoding with bounds checks","truetype/glyph.go: load, loadSimple, loadCompound"),("recursion limit","truetype/glyph.go: load"),("interpreter safety","truetype/hint.go: run")],
 ["GlyphBuf.Load","GlyphBuf.Points","GlyphBuf.Ends","GlyphBuf.Bounds"])
p("C07","Simple glyph outlines decode exactly and scale with correct rounding",
 "For every well-formed simple glyph loaded without hinting, the contour ends, on-curve flags and point positions equal those encoded by the font's flag, repeat and coordinate streams, each coordinate scaled by scale over units per em rounded to nearest (where the product fits in 32 bits), and shifted horizontally by the scaled difference of the glyph's left edge and its left side bearing. The bounds are the tightest box around the points, and the advance width is the distance of the glyph's scaled origin from its scaled advance point.",
 ["inputs"],"all well-formed simple glyph encodings (all flag, repeat and vector combinations) x scales",
 "The scaling tests compare one font's glyphs at one size; encodings that font's compiler never produced are not reached.",
 ["truetype/glyph.go"],
 [("stream decoding","truetype/glyph.go: loadSimple"),("scaling and phantom points","truetype/glyph.go: addPhantomsAndScale"),("bounds and advance","truetype/glyph.go: Load")],
 ["GlyphBuf.Load","GlyphBuf.Points","GlyphBuf.Ends","GlyphBuf.Bounds","GlyphBuf.AdvanceWidth"])
p("C08","Bytecode programs of any content run safely and stop",
 "For every hinting program (font program, control value program or glyph program) of any content, run on any well-formed outline (contour ends between 0 and the number of points), interpretation stops after a bounded number of steps and returns nil or an error, and never panics, reads or writes outside the stack, storage, control values, points or program, or divides by zero.",
 ["inputs","programs"],"all byte strings as hinting bytecode x all glyph zones, stack and storage sizes",
 "TestBytecode runs about thirty short hand-written programs, and the scaling test runs the programs of one well-behaved font.",
 ["truetype/hint.go","truetype/opcodes.go"],
 [("stack underflow table and overflow checks","truetype/opcodes.go: popCount; truetype/hint.go: run"),("step, program-size and call-depth limits","truetype/hint.go: run"),("checked point access","truetype/hint.go: point, iupInterp, iupShift, displacement")],
 ["GlyphBuf.Load with hinting"])
p("C09","Bytecode instructions have their documented stack effect and arithmetic",
 "For every program state, each push, stack-management, comparison, logical, arithmetic, storage, rounding-state, jump, conditional (IF, ELSE, EIF) and function (FDEF, ENDF, CALL, LOOPCALL with a count that is not negative) instruction, and each instruction that sets or reads the axis vectors, or sets a reference point, a zone, the loop count, a cut-in, the minimum distance, auto-flip, or the delta base or shift, and each instruction that reads or writes a control value or sets the single width (RCVT, WCVTP, WCVTF, SSW, MPPEM, MPS), changes the interpreter stack, storage, program position, graphics state and control values exactly as the TrueType instruction set documents and changes nothing else; a control value or width given in font units is scaled to the current size rounded to nearest where the product fits in 32 bits. Fixed-point multiplication, division, multiply-divide, projection and rounding yield the exact mathematical result under their documented rounding rule.",
 ["inputs","programs"],"all operand values and stack contents of each instruction; all arguments of the fixed-point helpers without 64-bit overflow",
 "TestBytecode samples one or two operand values for some of the instructions and none for many.",
 ["truetype/hint.go","truetype/opcodes.go"],
 [("instruction dispatch","truetype/hint.go: run"),("fixed-point helpers","truetype/hint.go: fmul, fdiv, mulDiv, dotProduct, round, fabs")],
 ["interpreter stack after hinter run"])
p("C10","Rasterize emits ordered, disjoint, in-bounds, visible spans",
 "For every sequence of drawing calls on a rasterizer and any fill rule, the spans handed to the painter are sorted by Y and then X and do not overlap; each lies, before the Dx, Dy offset, within the rasterizer's width and height, has positive width and an alpha between 1 and 0xffff. The painter is called with done true exactly once, as the last call.",
 ["inputs","histories"],"all sequences of Start and Add calls (coordinates without 32-bit overflow) x bounds x fill rules x offsets",
 "No test covers the raster package; benchmarks only check that nothing panics.",
 ["raster/raster.go"],
 [("sorted per-row cell lists","raster/raster.go: findCell, saveCell, setCell"),("sweep","raster/raster.go: Rasterize, areaToAlpha")],
 ["Rasterizer.Rasterize","Painter.Paint"])
p("C11","Lines accumulate the exact coverage of the path",
 "For every polyline with coordinates below 2^24 in magnitude, each line adds to each scanline exactly the signed vertical extent it covers there, divided among the pixel columns at the line's crossings of the column edges, rounded down to one 26.6 unit, with the trapezoid area of each crossed pixel. In particular a closed curve contributes zero net coverage to every scanline, nothing outside the rows and columns it crosses changes, and the order in which pixels are visited does not matter.",
 ["inputs","histories"],"all line segments and polylines without 32-bit overflow, including clipped, horizontal, vertical, upward and backward ones",
 "No test looks at a rasterized pixel.",
 ["raster/raster.go"],
 [("scanline stepping","raster/raster.go: Add1, scan"),("cell accumulation","raster/raster.go: setCell, saveCell, findCell")],
 ["Rasterizer.Add1 followed by Rasterize"])
p("C12","Area to alpha follows the fill rule, symmetrically and saturating",
 "For every accumulated area, alpha is 0 for no coverage, 0xffff for full coverage and proportional to the coverage to 12 bits in between, never exceeds 0xffff, is the same for opposite orientations up to rounding, is monotone and saturates beyond full coverage under the non-zero rule, and repeats with twice full coverage, peaking at full coverage, under the even-odd rule.",
 ["inputs"],"all area values reachable without overflow x both fill rules",
 "No test covers it.",
 ["raster/raster.go"],
 [("conversion","raster/raster.go: areaToAlpha")],
 ["Rasterizer.Rasterize"])
p("C13","Curve segments flatten safely, inside their hull, to their exact end point",
 "For every quadratic or cubic segment with coordinates that do not overflow, adding it terminates without panicking, draws only line segments whose end points lie inside the bounding box of its control points, and leaves the pen exactly at the segment's end point. A segment whose control points coincide with a straight line's end points stays on that point range.",
 ["inputs"],"all control points without overflow x all rasterizer bounds",
 "No test covers it.",
 ["raster/raster.go"],
 [("recursive subdivision on explicit stacks","raster/raster.go: Add2, Add3"),("depth estimate","raster/raster.go: Add2, Add3; raster/geom.go: maxAbs")],
 ["Rasterizer.Add2","Rasterizer.Add3"])
p("C14","Clearing or resizing a rasterizer forgets everything drawn before",
 "After clearing a rasterizer, or setting its bounds, for every earlier history of calls, what is drawn next rasterizes exactly as on a new rasterizer with those bounds (up to 2^20 each way), and a cleared rasterizer emits no span. Negative bounds count as zero.",
 ["histories","inputs"],"all histories of drawing calls before Clear or SetBounds x all bounds",
 "No test covers it; the benchmark reuses one rasterizer but compares no pixels.",
 ["raster/raster.go"],
 [("state reset","raster/raster.go: Clear, SetBounds, NewRasterizer")],
 ["Rasterizer.Clear","Rasterizer.SetBounds"])
p("C15","Alpha painters change exactly the clipped span, by the right formula",
 "For every alpha image, including sub-images, and every batch of spans in painting order, the source painter sets and the over painter composites precisely the pixels of the spans that lie inside the image bounds, to the span's 8-bit alpha or to the Porter-Duff over result, and no other byte of the image changes, nor is any access made outside it.",
 ["inputs"],"all image rectangles, strides and contents x all Y-sorted span batches, however far outside the image",
 "No test covers the painters.",
 ["raster/paint.go"],
 [("clipping and compositing","raster/paint.go: AlphaOverPainter.Paint, AlphaSrcPainter.Paint")],
 ["AlphaOverPainter.Paint","AlphaSrcPainter.Paint"])
p("C16","The RGBA painter changes exactly the clipped span, without overflow",
 "For every RGBA image, colour with premultiplied components, operator and Y-sorted batch of spans, the painter changes precisely the four bytes of each pixel of the spans that lie inside the image bounds, to the Porter-Duff source or over result at the span's alpha, computed without overflow, and no other byte changes nor is any access made outside the image.",
 ["inputs"],"all image rectangles and contents x colours x operators x Y-sorted span batches",
 "No test covers the painters.",
 ["raster/paint.go"],
 [("clipping and compositing","raster/paint.go: RGBAPainter.Paint")],
 ["RGBAPainter.Paint"])
p("C17","Monochrome painting keeps exactly the at-least-half-opaque pixels",
 "Over every sequence of painting batches ending with done, the wrapped painter receives fully opaque spans that cover exactly the pixels of the input spans with alpha at least one half, each pixel once, in order and with zero-width spans at most in addition, and receives done exactly once, at the end. The painter is then ready for reuse.",
 ["inputs","histories"],"all sequences of batches of ordered non-overlapping spans, of any sizes including empty",
 "No test covers it.",
 ["raster/paint.go"],
 [("pending-span accumulator","raster/paint.go: MonochromePainter.Paint")],
 ["MonochromePainter.Paint"])
p("C18","Gamma correction changes only alpha, and interpolates its table",
 "For every batch of spans, the wrapped painter receives the same spans in the same order with the same done flag, with fully transparent and fully opaque alpha unchanged and every other alpha replaced by the linear interpolation between the two neighbouring entries of the gamma table, which never exceeds 0xffff; with gamma one nothing changes.",
 ["inputs"],"all span batches with 16-bit alpha x all gamma tables",
 "No test covers it.",
 ["raster/paint.go"],
 [("interpolation","raster/paint.go: GammaCorrectionPainter.Paint")],
 ["GammaCorrectionPainter.Paint"])
p("C19","A path records segments faithfully, forwards and reversed",
 "Every path built by the recording calls is well formed, adding it to a rasterizer replays exactly the recorded starts and segments with their points in order, and its text form and stroking accept it without panicking. Adding a single-curve path reversed emits its segments in reverse order with reversed control points, ending at the curve's start.",
 ["inputs","histories"],"all sequences of Start, Add1, Add2, Add3 and AddPath calls with all point values",
 "No test covers paths.",
 ["raster/geom.go","raster/raster.go"],
 [("encoding","raster/geom.go: Path.Start, Add1, Add2, Add3, AddPath, Clear"),("decoding","raster/raster.go: Rasterizer.AddPath; raster/geom.go: addPathReversed, firstPoint, lastPoint, String")],
 ["Path","Rasterizer.AddPath","Stroke"])
p("C20","Stroking yields one closed outline per curve, and never misindexes",
 "For every well-formed path of linear and quadratic curves and any width, stroking terminates without indexing outside its stacks and adds, for each curve with at least one segment, one outline that starts with one start and ends exactly at the point where it started, whichever built-in capper and joiner is used. Subdivision of a quadratic never goes deeper than its fixed limit.",
 ["inputs"],"all well-formed paths of lines and quadratics x widths x built-in cappers and joiners",
 "No test covers stroking.",
 ["raster/stroke.go","raster/geom.go"],
 [("two-sided offset path","raster/stroke.go: Stroke, stroker.stroke, Add1, Add2, addNonCurvy2"),("caps and joins","raster/stroke.go: roundCapper, buttCapper, squareCapper, roundJoiner, bevelJoiner, addArc")],
 ["Stroke","Path.AddStroke","Rasterizer.AddStroke"])
p("C21","Glyph contours become closed curves with the implied points",
 "For every sequence of on-curve and off-curve points, both the drawing context and the font face draw a contour as one closed curve that starts and ends at the same point, passes through every on-curve point in order, uses every off-curve point as the control point of one quadratic, and inserts the midpoint between each two consecutive off-curve points, with Y flipped and the given offset applied.",
 ["inputs"],"all contours (any length and flags, including all off-curve and off-curve first or last point) x offsets",
 "No test looks at what a contour draws.",
 ["freetype.go","truetype/face.go"],
 [("contour conversion","freetype.go: Context.drawContour; truetype/face.go: face.drawContour")],
 ["Context.DrawString","face.Glyph"])
p("C22","Text is drawn only inside the clip, with the mask aligned to the glyph",
 "For every string, position, clip rectangle and destination, drawing text changes the destination only inside the clip rectangle, and every destination pixel of a glyph's rectangle inside the clip is composited with the mask pixel of the same position in the glyph, whichever sides of the glyph the clip cuts off. The returned point is the start advanced by each glyph's advance width plus the kerning of each consecutive pair.",
 ["inputs"],"all strings x positions x clip rectangles x glyph mask rectangles",
 "The benchmark draws with the clip equal to the whole image and compares no pixel.",
 ["freetype.go"],
 [("clipping and mask alignment","freetype.go: Context.DrawString")],
 ["Context.DrawString"])
p("C23","The context's glyph cache never serves a stale or wrong glyph",
 "For every sequence of setter and drawing calls, a glyph image served from a context's cache is one that was rasterized for the same glyph index, the same quantized sub-pixel position, and the context's current font, size, resolution and hinting. Its offset is the integer pixel position plus the glyph's own offset.",
 ["histories","inputs"],"all histories of SetFont, SetFontSize, SetDPI, SetHinting and DrawString calls x all glyph indexes and positions",
 "The benchmark uses one configuration and compares no pixel.",
 ["freetype.go"],
 [("cache key and entry check","freetype.go: Context.glyph"),("invalidation","freetype.go: recalc, SetHinting, SetFont, SetFontSize, SetDPI")],
 ["Context.DrawString"])
p("C24","A face's glyph cache is transparent and its masks do not overlap",
 "For every sequence of glyph requests on a face, the mask, offset, size and advance returned for a rune and dot are those of rasterizing that glyph at the dot quantized to the configured sub-pixel grid, whether or not they were cached, and each cache slot owns a disjoint part of the mask image. For every valid rune, the rune-to-glyph cache returns what the font returns.",
 ["histories","inputs"],"all histories of Glyph, Kern, GlyphBounds and GlyphAdvance calls x all options, runes and dots",
 "The benchmark draws with default options and compares no pixel.",
 ["truetype/face.go"],
 [("cache key and slot","truetype/face.go: face.Glyph"),("slot-confined painting","truetype/face.go: face.rasterize, facePainter.Paint"),("index cache","truetype/face.go: face.index")],
 ["font.Face methods"])
p("C25","Face options mean what they document",
 "For every options value, including nil, with finite numbers, a face is created with the documented defaults for absent or invalid fields, and with the given size, resolution, hinting, cache size and horizontal and vertical sub-pixel counts otherwise; its line height is its scale, and its ascent and descent are the font's, scaled and rounded up (where that fits in 32 bits); quantizing a dot with q sub-pixel positions rounds it to the nearest multiple of 1/q pixel.",
 ["inputs","configurations"],"all option values",
 "The benchmark passes nil options.",
 ["truetype/face.go"],
 [("option accessors","truetype/face.go: Options.size, dpi, hinting, glyphCacheEntries, subPixelsX, subPixelsY, subPixels, powerOf2")],
 ["NewFace"])
p("C26","Reusing a glyph buffer gives the same result as a new one",
 "For every history of earlier loads without hinting, loading a glyph into a reused glyph buffer gives the same points, ends, bounds, advance width and error as loading it into a new one. With hinting, the instruction functions, storage, control values and graphics state of one font or scale never leak into another's glyphs.",
 ["histories","inputs"],"all histories of loads into one buffer x all fonts, scales, glyphs and hinting modes",
 "The scaling test reuses one buffer with one font, one scale and one hinting mode.",
 ["truetype/glyph.go","truetype/hint.go"],
 [("reset on load","truetype/glyph.go: Load"),("re-initialisation on font or scale change","truetype/hint.go: hinter.init, resetTwilightPoints, initializeScaledCVT")],
 ["GlyphBuf.Load"])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
for q in P: assert len(q["title"])<=80,(q["id"],len(q["title"]))
