// Contracts for freetype.go: the drawing context.

// ---- C23
// For the key 4*glyph+b of a glyph at the sub-pixel position b, what rasterize last returned for it
// (the advance, offset and mask image), and the font, scale and hinting at the time.
ghost grf arr
ghost grs arr
ghost grh arr
ghost gradv arr
ghost grox arr
ghost groy arr
ghost grm arr
def ckey(g int, fx int) int = 4*g + div(fx, 16)
pred within(x int, b int) = -b <= x && x <= b

// every valid entry is in its place and holds what rasterize returned under the current font, scale and hinting
pred entryok(c *freetype.Context, t int) =
  mod(c.cache[t].glyph, 256) == div(t, 4)
  && grf[4*c.cache[t].glyph + mod(t,4)] == ref(c.f) && grs[4*c.cache[t].glyph + mod(t,4)] == c.scale && grh[4*c.cache[t].glyph + mod(t,4)] == c.hinting
  && gradv[4*c.cache[t].glyph + mod(t,4)] == c.cache[t].advanceWidth && grox[4*c.cache[t].glyph + mod(t,4)] == c.cache[t].offset.X && groy[4*c.cache[t].glyph + mod(t,4)] == c.cache[t].offset.Y
  && c.cache[t].mask != nil && grm[4*c.cache[t].glyph + mod(t,4)] == ref(c.cache[t].mask)
  && maskok(c.cache[t].mask) && within(c.cache[t].offset.X, 67108864) && within(c.cache[t].offset.Y, 67108864)
pred maskok(m *image.Alpha) = idx(m) == 0 && m.Rect.Min.X == 0 && m.Rect.Min.Y == 0 && 0 <= m.Rect.Max.X && m.Rect.Max.X <= 134217728 && 0 <= m.Rect.Max.Y && m.Rect.Max.Y <= 134217728
pred entriesok(c *freetype.Context) = forall t int {c.cache[t].glyph} :: 0 <= t && t < 1024 && c.cache[t].valid ==> entryok(c, t)
pred novalid(c *freetype.Context) = forall t int {c.cache[t].valid} :: 0 <= t && t < 1024 ==> !c.cache[t].valid

def ctxscale(size float64, dpi float64) int = f2i32(f2(fmul, f2(fmul, size, dpi), fconst(8_9)))
// the scale is that of the size and resolution; a new context has the scale of 12 points at 72 DPI
pred scaled1(c *freetype.Context) = c.scale == ctxscale(c.fontSize, c.dpi) || c.fontSize == fconst(12) && c.dpi == fconst(72) && c.scale == 768
pred rasterok(c *freetype.Context) = c.r != nil && hinterinv(addr(c.glyphBuf.hinter)) && cellsok(c.r) && scaleok(c.r) && c.r.Dx == 0 && c.r.Dy == 0 && len(c.r.cellIndex) <= 1099511627776 && root(c.glyphBuf.Ends) != root(c.r.cellIndex) && root(c.glyphBuf.Ends) != root(c.r)
  && (c.f != nil ==> fontok(c.f))
pred ctxok(c *freetype.Context) = rasterok(c) && entriesok(c) && scaled1(c)

// the pixel box of a glyph at (fx, fy)
ghost gimg int
func freetype.(*Context).rasterize(c, glyph, fx, fy) (adv, mask, offset, err)
props C23
allocates
requires rasterok(c) && c.f != nil && 0 <= fx && fx < 64 && 0 <= fy && fy < 64
modifies gloaded, gcontours, gimg, c.glyphBuf.Points, elems(c.glyphBuf.Points), c.glyphBuf.InFontUnits, elems(c.glyphBuf.InFontUnits), c.glyphBuf.Unhinted, elems(c.glyphBuf.Unhinted), c.glyphBuf.Ends, elems(c.glyphBuf.Ends), c.glyphBuf.font, c.glyphBuf.scale, c.glyphBuf.hinting, c.glyphBuf.AdvanceWidth, c.glyphBuf.Bounds, c.glyphBuf.phantomPoints, c.glyphBuf.pp1x, c.glyphBuf.metricsSet, c.glyphBuf.numLoads, c.glyphBuf.tmp, elems(c.glyphBuf.tmp), gruns,
  c.glyphBuf.hinter.font, c.glyphBuf.hinter.scale, c.glyphBuf.hinter.functions, c.glyphBuf.hinter.stack, c.glyphBuf.hinter.store, c.glyphBuf.hinter.gs, c.glyphBuf.hinter.defaultGS, c.glyphBuf.hinter.points, c.glyphBuf.hinter.ends, c.glyphBuf.hinter.scaledCVTInitialized, c.glyphBuf.hinter.scaledCVT, elems(c.glyphBuf.hinter.scaledCVT), elems(c.glyphBuf.hinter.stack), elems(c.glyphBuf.hinter.store), elems(c.glyphBuf.hinter.functions), elems(c.glyphBuf.hinter.points[0][0]), elems(c.glyphBuf.hinter.points[0][1]), elems(c.glyphBuf.hinter.points[0][2]),
  c.r.cell, elems(c.r.cell), elems(c.r.cellIndex), c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, elems(c.r.spanBuf), cellrow, gc, gcurves, gpt, gcloses, glast, glasty, glastx, gdone
ensures rasterok(c)
ensures (ref(c.glyphBuf.Points) == old(ref(c.glyphBuf.Points)) || fresh(c.glyphBuf.Points)) && (ref(c.glyphBuf.InFontUnits) == old(ref(c.glyphBuf.InFontUnits)) || fresh(c.glyphBuf.InFontUnits)) && (ref(c.glyphBuf.Unhinted) == old(ref(c.glyphBuf.Unhinted)) || fresh(c.glyphBuf.Unhinted)) && (ref(c.glyphBuf.Ends) == old(ref(c.glyphBuf.Ends)) || fresh(c.glyphBuf.Ends)) && (ref(c.glyphBuf.tmp) == old(ref(c.glyphBuf.tmp)) || fresh(c.glyphBuf.tmp)) && (ref(c.glyphBuf.hinter.stack) == old(ref(c.glyphBuf.hinter.stack)) || fresh(c.glyphBuf.hinter.stack)) && (ref(c.glyphBuf.hinter.store) == old(ref(c.glyphBuf.hinter.store)) || fresh(c.glyphBuf.hinter.store)) && (ref(c.glyphBuf.hinter.functions) == old(ref(c.glyphBuf.hinter.functions)) || fresh(c.glyphBuf.hinter.functions)) && (ref(c.glyphBuf.hinter.scaledCVT) == old(ref(c.glyphBuf.hinter.scaledCVT)) || fresh(c.glyphBuf.hinter.scaledCVT)) && (ref(c.glyphBuf.hinter.points[0][0]) == old(ref(c.glyphBuf.hinter.points[0][0])) || fresh(c.glyphBuf.hinter.points[0][0])) && (ref(c.glyphBuf.hinter.points[0][1]) == old(ref(c.glyphBuf.hinter.points[0][1])) || fresh(c.glyphBuf.hinter.points[0][1])) && (ref(c.glyphBuf.hinter.points[0][2]) == old(ref(c.glyphBuf.hinter.points[0][2])) || fresh(c.glyphBuf.hinter.points[0][2])) && (ref(c.r.cell) == old(ref(c.r.cell)) || fresh(c.r.cell))
ensures tag(err) == 0 ==> mask != nil && fresh(mask) && fresh(mask.Pix) && maskok(mask) && ref(mask) == gimg && idx(mask) == 0 && gloaded == 2
ensures tag(err) == 0 ==> mask.Rect.Max.X == boxx1(addr(c.glyphBuf), fx) - boxx0(addr(c.glyphBuf), fx) && mask.Rect.Max.Y == boxy1(addr(c.glyphBuf), fy) - boxy0(addr(c.glyphBuf), fy)
ensures tag(err) == 0 ==> adv == c.glyphBuf.AdvanceWidth && offset.X == boxx0(addr(c.glyphBuf), fx) && offset.Y == boxy0(addr(c.glyphBuf), fy)
loop 1
invariant 0 <= iter(1) && iter(1) <= len(c.glyphBuf.Ends) && gcontours == iter(1) && e0 == (gcontours == 0 ? 0 : c.glyphBuf.Ends[gcontours-1]) && gloaded == 1
invariant rasterok(c) && (gcontours == 0 ==> emptyr(c.r))
invariant ref(c.r.cell) == pre(ref(c.r.cell)) || fresh(c.r.cell)
oncall truetype.(*GlyphBuf).Load(g, f, scale, i, h)
requires ref(g) == ref(addr(c.glyphBuf)) && f == c.f && scale == c.scale && i == glyph && h == c.hinting
set gloaded = tag(result) == 0 ? 1 : 0
set gcontours = 0
oncall freetype.(*Context).drawContour(b, ps, dx, dy)
requires b == c && gloaded == 1 && gcontours < len(c.glyphBuf.Ends) && (gcontours == 0 ==> emptyr(c.r))
requires ref(ps) == ref(c.glyphBuf.Points) && off(ps) == off(c.glyphBuf.Points) + (gcontours == 0 ? 0 : c.glyphBuf.Ends[gcontours-1]) && off(ps) + len(ps) == off(c.glyphBuf.Points) + c.glyphBuf.Ends[gcontours]
requires dx == int32(old(fx) - int32(64*boxx0(addr(c.glyphBuf), old(fx)))) && dy == int32(old(fy) - int32(64*boxy0(addr(c.glyphBuf), old(fy))))
set gcontours = gcontours + 1
oncall raster.(*Rasterizer).Rasterize(r, p)
requires r == c.r && gloaded == 1 && gcontours == len(c.glyphBuf.Ends) && (gcontours == 0 ==> emptyr(c.r))
requires istype(p, raster.AlphaSrcPainter) && let m = asptr(p, raster.AlphaSrcPainter).Image; m != nil && idx(m) == 0 && fresh(m) && fresh(m.Pix) && zeroed(row(m.Pix), off(m.Pix), len(m.Pix))
setpre gimg = ref(asptr(p, raster.AlphaSrcPainter).Image)
setpre glast = false
setpre gdone = 0
set gloaded = 2

func freetype.(*Context).glyph(c, glyph, p) (adv, mask, offset, err)
props C23
allocates
requires ctxok(c) && c.f != nil
modifies elems(c.cache), grf, grs, grh, gradv, grox, groy, grm, gloaded, gcontours, gimg, c.glyphBuf.Points, elems(c.glyphBuf.Points), c.glyphBuf.InFontUnits, elems(c.glyphBuf.InFontUnits), c.glyphBuf.Unhinted, elems(c.glyphBuf.Unhinted), c.glyphBuf.Ends, elems(c.glyphBuf.Ends), c.glyphBuf.font, c.glyphBuf.scale, c.glyphBuf.hinting, c.glyphBuf.AdvanceWidth, c.glyphBuf.Bounds, c.glyphBuf.phantomPoints, c.glyphBuf.pp1x, c.glyphBuf.metricsSet, c.glyphBuf.numLoads, c.glyphBuf.tmp, elems(c.glyphBuf.tmp), gruns,
  c.glyphBuf.hinter.font, c.glyphBuf.hinter.scale, c.glyphBuf.hinter.functions, c.glyphBuf.hinter.stack, c.glyphBuf.hinter.store, c.glyphBuf.hinter.gs, c.glyphBuf.hinter.defaultGS, c.glyphBuf.hinter.points, c.glyphBuf.hinter.ends, c.glyphBuf.hinter.scaledCVTInitialized, c.glyphBuf.hinter.scaledCVT, elems(c.glyphBuf.hinter.scaledCVT), elems(c.glyphBuf.hinter.stack), elems(c.glyphBuf.hinter.store), elems(c.glyphBuf.hinter.functions), elems(c.glyphBuf.hinter.points[0][0]), elems(c.glyphBuf.hinter.points[0][1]), elems(c.glyphBuf.hinter.points[0][2]),
  c.r.cell, elems(c.r.cell), elems(c.r.cellIndex), c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, elems(c.r.spanBuf), cellrow, gc, gcurves, gpt, gcloses, glast, glasty, glastx, gdone
ensures rasterok(c)
ensures (ref(c.glyphBuf.Points) == old(ref(c.glyphBuf.Points)) || fresh(c.glyphBuf.Points)) && (ref(c.glyphBuf.InFontUnits) == old(ref(c.glyphBuf.InFontUnits)) || fresh(c.glyphBuf.InFontUnits)) && (ref(c.glyphBuf.Unhinted) == old(ref(c.glyphBuf.Unhinted)) || fresh(c.glyphBuf.Unhinted)) && (ref(c.glyphBuf.Ends) == old(ref(c.glyphBuf.Ends)) || fresh(c.glyphBuf.Ends)) && (ref(c.glyphBuf.tmp) == old(ref(c.glyphBuf.tmp)) || fresh(c.glyphBuf.tmp)) && (ref(c.glyphBuf.hinter.stack) == old(ref(c.glyphBuf.hinter.stack)) || fresh(c.glyphBuf.hinter.stack)) && (ref(c.glyphBuf.hinter.store) == old(ref(c.glyphBuf.hinter.store)) || fresh(c.glyphBuf.hinter.store)) && (ref(c.glyphBuf.hinter.functions) == old(ref(c.glyphBuf.hinter.functions)) || fresh(c.glyphBuf.hinter.functions)) && (ref(c.glyphBuf.hinter.scaledCVT) == old(ref(c.glyphBuf.hinter.scaledCVT)) || fresh(c.glyphBuf.hinter.scaledCVT)) && (ref(c.glyphBuf.hinter.points[0][0]) == old(ref(c.glyphBuf.hinter.points[0][0])) || fresh(c.glyphBuf.hinter.points[0][0])) && (ref(c.glyphBuf.hinter.points[0][1]) == old(ref(c.glyphBuf.hinter.points[0][1])) || fresh(c.glyphBuf.hinter.points[0][1])) && (ref(c.glyphBuf.hinter.points[0][2]) == old(ref(c.glyphBuf.hinter.points[0][2])) || fresh(c.glyphBuf.hinter.points[0][2])) && (ref(c.r.cell) == old(ref(c.r.cell)) || fresh(c.r.cell))
ensures entriesok(c)
ensures tag(err) == 0 ==> mask != nil && maskok(mask) && grm[ckey(glyph, mod(p.X,64))] == ref(mask) && gradv[ckey(glyph, mod(p.X,64))] == adv
ensures tag(err) == 0 ==> grf[ckey(glyph, mod(p.X,64))] == ref(c.f) && grs[ckey(glyph, mod(p.X,64))] == c.scale && grh[ckey(glyph, mod(p.X,64))] == c.hinting
ensures tag(err) == 0 ==> offset.X == div(p.X,64) + grox[ckey(glyph, mod(p.X,64))] && offset.Y == div(p.Y,64) + groy[ckey(glyph, mod(p.X,64))] && within(offset.X, 134217728) && within(offset.Y, 134217728)
oncall freetype.(*Context).rasterize(b, g, fx, fy)
requires b == c && g == glyph && fx == mod(p.X,64) && fy == mod(p.Y,64)
set grf = tag(result3) == 0 ? upd(grf, ckey(g, fx), ref(c.f)) : grf
set grs = tag(result3) == 0 ? upd(grs, ckey(g, fx), c.scale) : grs
set grh = tag(result3) == 0 ? upd(grh, ckey(g, fx), c.hinting) : grh
set gradv = tag(result3) == 0 ? upd(gradv, ckey(g, fx), result0) : gradv
set grox = tag(result3) == 0 ? upd(grox, ckey(g, fx), result2.X) : grox
set groy = tag(result3) == 0 ? upd(groy, ckey(g, fx), result2.Y) : groy
set grm = tag(result3) == 0 ? upd(grm, ckey(g, fx), ref(result1)) : grm

// ---- the setters
pred fits1(f *truetype.Font, size float64, dpi float64) = f != nil ==> boxsmall(f, ctxscale(size, dpi))

func freetype.(*Context).recalc(c)
props C23
allocates
opt bigalloc
requires rasterok(c) && fits1(c.f, c.fontSize, c.dpi)
modifies c.scale, elems(c.cache), c.r.cell, elems(c.r.cellIndexBuf), c.r.cellIndex, c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, c.r.width, c.r.splitScale2, c.r.splitScale3
ensures rasterok(c)
ensures novalid(c)
ensures c.scale == ctxscale(c.fontSize, c.dpi)
loop 1
invariant forall t int {c.cache[t].valid} :: 0 <= t && t < it ==> !c.cache[t].valid

func freetype.(*Context).SetDPI(c, dpi)
props C23
allocates
opt bigalloc
requires ctxok(c) && fits1(c.f, c.fontSize, dpi)
modifies c.dpi, c.scale, elems(c.cache), c.r.cell, elems(c.r.cellIndexBuf), c.r.cellIndex, c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, c.r.width, c.r.splitScale2, c.r.splitScale3
ensures ctxok(c)
ensures c.dpi == dpi || c.dpi == old(c.dpi) && feq(c.dpi, dpi)

func freetype.(*Context).SetFontSize(c, size)
props C23
allocates
opt bigalloc
requires ctxok(c) && fits1(c.f, size, c.dpi)
modifies c.fontSize, c.scale, elems(c.cache), c.r.cell, elems(c.r.cellIndexBuf), c.r.cellIndex, c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, c.r.width, c.r.splitScale2, c.r.splitScale3
ensures ctxok(c)
ensures c.fontSize == size || c.fontSize == old(c.fontSize) && feq(c.fontSize, size)

func freetype.(*Context).SetFont(c, f)
props C23
allocates
nilable f
opt bigalloc
requires ctxok(c) && (f != nil ==> fontok(f)) && fits1(f, c.fontSize, c.dpi)
modifies c.f, c.scale, elems(c.cache), c.r.cell, elems(c.r.cellIndexBuf), c.r.cellIndex, c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, c.r.width, c.r.splitScale2, c.r.splitScale3
ensures ctxok(c)
ensures c.f == f

func freetype.(*Context).SetHinting(c, hinting)
props C23
requires ctxok(c)
modifies c.hinting, elems(c.cache)
ensures ctxok(c)
ensures c.hinting == hinting
loop 1
invariant forall t int {c.cache[t].valid} :: 0 <= t && t < it ==> !c.cache[t].valid

func freetype.(*Context).SetDst(c, dst)
props C22 C23
nilable dst
modifies c.dst
ensures c.dst == dst

func freetype.(*Context).SetSrc(c, src)
props C22 C23
nilable src
modifies c.src
ensures c.src == src

func freetype.(*Context).SetClip(c, clip)
props C22 C23
modifies c.clip
ensures c.clip.Min.X == clip.Min.X && c.clip.Min.Y == clip.Min.Y && c.clip.Max.X == clip.Max.X && c.clip.Max.Y == clip.Max.Y

func freetype.NewContext() (c)
props C23
allocates
opt bigalloc
ensures c != nil && fresh(c) && c.f == nil && c.hinting == 0
ensures ctxok(c)

// ---- C22: the glyphs of the characters in order, each at the pen, kerned with the one before, and drawn where the clip and its mask overlap
ghost gpos int
ghost gpen int
ghost gprev int
ghost gcur int
ghost gstate int
ghost gmask int
ghost gmx int
ghost gmy int
ghost gmw int
ghost gmh int
// what of the last glyph's mask is inside the clip
def clipx0(c *freetype.Context) int = max(c.clip.Min.X, gmx)
def clipy0(c *freetype.Context) int = max(c.clip.Min.Y, gmy)
def clipx1(c *freetype.Context) int = min(c.clip.Max.X, gmx + gmw)
def clipy1(c *freetype.Context) int = min(c.clip.Max.Y, gmy + gmh)
pred drawn(c *freetype.Context) = gstate == 0 || gstate == 3 && !(clipx0(c) < clipx1(c) && clipy0(c) < clipy1(c))

extern image/draw.DrawMask(dst, r, src, sp, mask, mp, op)

func freetype.(*Context).DrawString(c, s, p) (q, err)
props C22 C23
allocates
requires ctxok(c)
requires gpos == 0 && gpen == p.X && gprev == -1 && gstate == 0
modifies gpos, gpen, gprev, gcur, gstate, gmask, gmx, gmy, gmw, gmh, elems(c.cache), grf, grs, grh, gradv, grox, groy, grm, gloaded, gcontours, gimg, c.glyphBuf.Points, elems(c.glyphBuf.Points), c.glyphBuf.InFontUnits, elems(c.glyphBuf.InFontUnits), c.glyphBuf.Unhinted, elems(c.glyphBuf.Unhinted), c.glyphBuf.Ends, elems(c.glyphBuf.Ends), c.glyphBuf.font, c.glyphBuf.scale, c.glyphBuf.hinting, c.glyphBuf.AdvanceWidth, c.glyphBuf.Bounds, c.glyphBuf.phantomPoints, c.glyphBuf.pp1x, c.glyphBuf.metricsSet, c.glyphBuf.numLoads, c.glyphBuf.tmp, elems(c.glyphBuf.tmp), gruns,
  c.glyphBuf.hinter.font, c.glyphBuf.hinter.scale, c.glyphBuf.hinter.functions, c.glyphBuf.hinter.stack, c.glyphBuf.hinter.store, c.glyphBuf.hinter.gs, c.glyphBuf.hinter.defaultGS, c.glyphBuf.hinter.points, c.glyphBuf.hinter.ends, c.glyphBuf.hinter.scaledCVTInitialized, c.glyphBuf.hinter.scaledCVT, elems(c.glyphBuf.hinter.scaledCVT), elems(c.glyphBuf.hinter.stack), elems(c.glyphBuf.hinter.store), elems(c.glyphBuf.hinter.functions), elems(c.glyphBuf.hinter.points[0][0]), elems(c.glyphBuf.hinter.points[0][1]), elems(c.glyphBuf.hinter.points[0][2]),
  c.r.cell, elems(c.r.cell), elems(c.r.cellIndex), c.r.area, c.r.cover, c.r.xi, c.r.yi, c.r.a, elems(c.r.spanBuf), cellrow, gc, gcurves, gpt, gcloses, glast, glasty, glastx, gdone
ensures ctxok(c)
ensures c.f == nil ==> tag(err) != 0
ensures tag(err) == 0 ==> gpos == len(s) && q.X == gpen && q.Y == p.Y && drawn(c)
loop 1
invariant ctxok(c) && c.f != nil
invariant (ref(c.glyphBuf.Points) == old(ref(c.glyphBuf.Points)) || fresh(c.glyphBuf.Points)) && (ref(c.glyphBuf.InFontUnits) == old(ref(c.glyphBuf.InFontUnits)) || fresh(c.glyphBuf.InFontUnits)) && (ref(c.glyphBuf.Unhinted) == old(ref(c.glyphBuf.Unhinted)) || fresh(c.glyphBuf.Unhinted)) && (ref(c.glyphBuf.Ends) == old(ref(c.glyphBuf.Ends)) || fresh(c.glyphBuf.Ends)) && (ref(c.glyphBuf.tmp) == old(ref(c.glyphBuf.tmp)) || fresh(c.glyphBuf.tmp)) && (ref(c.glyphBuf.hinter.stack) == old(ref(c.glyphBuf.hinter.stack)) || fresh(c.glyphBuf.hinter.stack)) && (ref(c.glyphBuf.hinter.store) == old(ref(c.glyphBuf.hinter.store)) || fresh(c.glyphBuf.hinter.store)) && (ref(c.glyphBuf.hinter.functions) == old(ref(c.glyphBuf.hinter.functions)) || fresh(c.glyphBuf.hinter.functions)) && (ref(c.glyphBuf.hinter.scaledCVT) == old(ref(c.glyphBuf.hinter.scaledCVT)) || fresh(c.glyphBuf.hinter.scaledCVT)) && (ref(c.glyphBuf.hinter.points[0][0]) == old(ref(c.glyphBuf.hinter.points[0][0])) || fresh(c.glyphBuf.hinter.points[0][0])) && (ref(c.glyphBuf.hinter.points[0][1]) == old(ref(c.glyphBuf.hinter.points[0][1])) || fresh(c.glyphBuf.hinter.points[0][1])) && (ref(c.glyphBuf.hinter.points[0][2]) == old(ref(c.glyphBuf.hinter.points[0][2])) || fresh(c.glyphBuf.hinter.points[0][2])) && (ref(c.r.cell) == old(ref(c.r.cell)) || fresh(c.r.cell))
invariant 0 <= strpos(1) && strpos(1) <= len(s) && gpos == strpos(1)
invariant gpen == p.X && p.Y == old(p.Y) && drawn(c)
invariant (hasPrev <==> gprev >= 0) && (hasPrev ==> prev == gprev) && -1 <= gprev
oncall truetype.(*Font).Index(f, x)
requires f == c.f && drawn(c) && gpos < len(s) && x == runeat(s, gpos)
set gpos = gpos + runelen(s, gpos)
set gcur = result
set gstate = 1
oncall truetype.(*Font).Kern(f, scale, i0, i1)
requires f == c.f && scale == c.scale && gstate == 1 && gprev >= 0 && i0 == gprev && i1 == gcur
set gpen = int32(gpen + (c.hinting != 0 ? int32(int32(result + 32) - mod(int32(result + 32), 64)) : result))
set gstate = 2
oncall freetype.(*Context).glyph(b, g, at)
requires b == c && g == gcur && at.X == gpen && at.Y == old(p.Y) && gstate == (gprev >= 0 ? 2 : 1)
set gpen = int32(gpen + result0)
set gprev = gcur
set gmask = ref(result1)
set gmx = result2.X
set gmy = result2.Y
set gmw = tag(result3) == 0 ? result1.Rect.Max.X : 0
set gmh = tag(result3) == 0 ? result1.Rect.Max.Y : 0
set gstate = 3
oncall image/draw.DrawMask(dst, r, src, sp, mask, mp, op)
requires gstate == 3 && istype(mask, image.Alpha, ptr) && dst == c.dst && src == c.src && op == 0
requires ref(asptr(mask, image.Alpha)) == gmask && idx(asptr(mask, image.Alpha)) == 0
requires r.Min.X == clipx0(c) && r.Min.Y == clipy0(c) && r.Max.X == clipx1(c) && r.Max.Y == clipy1(c)
requires mp.X == r.Min.X - gmx && mp.Y == r.Min.Y - gmy
set gstate = 0
