// Contracts for truetype/face.go.

// ---- C25: options
pred ispow2(i int) = i == 1 || i == 2 || i == 4 || i == 8 || i == 16 || i == 32 || i == 64 || i == 128 || i == 256 || i == 512 || i == 1024 || i == 2048 || i == 4096 || i == 8192 || i == 16384 || i == 32768 || i == 65536 || i == 131072 || i == 262144 || i == 524288 || i == 1048576 || i == 2097152 || i == 4194304 || i == 8388608 || i == 16777216 || i == 33554432 || i == 67108864 || i == 134217728 || i == 268435456 || i == 536870912 || i == 1073741824 || i == 2147483648 || i == 4294967296 || i == 8589934592 || i == 17179869184 || i == 34359738368 || i == 68719476736 || i == 137438953472 || i == 274877906944 || i == 549755813888 || i == 1099511627776 || i == 2199023255552 || i == 4398046511104 || i == 8796093022208 || i == 17592186044416 || i == 35184372088832 || i == 70368744177664 || i == 140737488355328 || i == 281474976710656 || i == 562949953421312 || i == 1125899906842624 || i == 2251799813685248 || i == 4503599627370496 || i == 9007199254740992 || i == 18014398509481984 || i == 36028797018963968 || i == 72057594037927936 || i == 144115188075855872 || i == 288230376151711744 || i == 576460752303423488 || i == 1152921504606846976 || i == 2305843009213693952 || i == 4611686018427387904
pred issub(q int) = q == 1 || q == 2 || q == 4 || q == 8 || q == 16 || q == 32 || q == 64
def subq(q int, def int) int = issub(q) ? q : def

func truetype.powerOf2(i) (r)
props C25
ensures r <==> ispow2(i)

func truetype.(*Options).size(o) (r)
props C25
nilable o
ensures r == (o != nil && flt(fconst(0), o.Size) ? o.Size : fconst(12))

func truetype.(*Options).dpi(o) (r)
props C25
nilable o
ensures r == (o != nil && flt(fconst(0), o.DPI) ? o.DPI : fconst(72))

// vertical hinting is treated as full hinting
func truetype.(*Options).hinting(o) (r)
props C25
nilable o
ensures r == (o != nil && (o.Hinting == 1 || o.Hinting == 2) ? 2 : 0)

func truetype.(*Options).glyphCacheEntries(o) (r)
props C25
nilable o
ensures r == (o != nil && ispow2(o.GlyphCacheEntries) ? o.GlyphCacheEntries : 512)

// Adding bias and masking rounds to the nearest multiple of 64/q, halves up.
func truetype.subPixels(q) (value, bias, mask)
props C25
requires issub(q)
ensures value == q && bias == div(32, q) && mask == -div(64, q)

func truetype.(*Options).subPixelsX(o) (value, bias, mask)
props C25
nilable o
ensures value == (o == nil ? 4 : subq(o.SubPixelsX, 4))
ensures bias == div(32, value) && mask == -div(64, value)

func truetype.(*Options).subPixelsY(o) (value, bias, mask)
props C25
nilable o
ensures value == (o == nil ? 1 : subq(o.SubPixelsY, 1))
ensures bias == div(32, value) && mask == -div(64, value)

lemma[C25] quantnearest(x int, q int, r int)
requires issub(q) && r == x + div(32, q) - mod(x + div(32, q), div(64, q))
ensures mod(r, div(64, q)) == 0
ensures 2*abs(r - x) <= div(64, q)
ensures forall s int {mod(s, div(64, q))} :: mod(s, div(64, q)) == 0 ==> abs(s - x) >= abs(r - x)

// ---- C24
// P is Q but for the n bytes at o
pred slotonly(P arr, Q arr, o int, n int) = forall b int {P[b]} :: b < o || o + n <= b ==> P[b] == Q[b]

// the mask image holds slots of maxw by maxh pixels, one above the other, and the paint offset is that of one of them
pred masksok(a *truetype.face) = a.masks != nil && 0 <= a.maxw && a.maxw <= 1048576 && 0 <= a.maxh && a.maxh <= 1048576
  && a.masks.Rect.Min.X == 0 && a.masks.Rect.Min.Y == 0 && a.masks.Rect.Max.X == a.maxw && a.masks.Stride == a.maxw
  && a.masks.Rect.Max.Y == a.maxh*len(a.glyphCache) && len(a.masks.Pix) == a.maxw*(a.maxh*len(a.glyphCache)) && ref(a.masks.Pix) >= 0
pred slotok(a *truetype.face) = 0 <= a.paintOffset && a.paintOffset + a.maxh <= a.maxh*len(a.glyphCache)
pred canpaint(a *truetype.face) = a != nil && masksok(a) && slotok(a)

func truetype.facePainter.Paint(p, ss, done)
props C24
requires canpaint(p.a) && ysorted(ss) && alphasok(row(ss,Alpha), off(ss), len(ss))
modifies elems(p.a.masks.Pix)
ensures slotonly(row(p.a.masks.Pix), old(row(p.a.masks.Pix)), off(p.a.masks.Pix) + p.a.paintOffset*p.a.maxw, p.a.maxw*p.a.maxh)
ensures forall b int {row(p.a.masks.Pix)[b]} :: row(p.a.masks.Pix)[b] == alphasrc(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), len(ss), 0, 0, p.a.maxw, p.a.maxh, p.a.maxw, b - off(p.a.masks.Pix) - p.a.paintOffset*p.a.maxw, old(row(p.a.masks.Pix))[b])
use alphasrcrest(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), iter(1)-1, len(ss), 0, 0, p.a.maxw, p.a.maxh, p.a.maxw) at return
loop 1
invariant slotonly(row(p.a.masks.Pix), old(row(p.a.masks.Pix)), off(p.a.masks.Pix) + p.a.paintOffset*p.a.maxw, p.a.maxw*p.a.maxh)
invariant forall b int {row(p.a.masks.Pix)[b]} :: row(p.a.masks.Pix)[b] == alphasrc(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), it, 0, 0, p.a.maxw, p.a.maxh, p.a.maxw, b - off(p.a.masks.Pix) - p.a.paintOffset*p.a.maxw, old(row(p.a.masks.Pix))[b])
loop 2
invariant forall b int {row(m.Pix)[b]} :: row(m.Pix)[b] == (off(p) <= b && b < off(p) + it ? div(row(ss,Alpha)[off(ss)+iter(1)-1],256) : pre(row(m.Pix))[b])

// what of a face never changes: its configuration
pred faceok(a *truetype.face) = a.f != nil && fontok(a.f) && masksok(a) && ispow2(len(a.glyphCache))
  && istype(a.p, truetype.facePainter) && asptr(a.p, truetype.facePainter).a == a
  && issub(a.subPixelX) && a.subPixelBiasX == div(32, a.subPixelX) && a.subPixelMaskX == -div(64, a.subPixelX)
  && issub(a.subPixelY) && a.subPixelBiasY == div(32, a.subPixelY) && a.subPixelMaskY == -div(64, a.subPixelY)
// its buffers
pred bufsok(a *truetype.face) = hinterinv(addr(a.glyphBuf.hinter)) && cellsok(addr(a.r)) && scaleok(addr(a.r)) && a.r.width == a.maxw && len(a.r.cellIndex) == a.maxh && a.r.Dx == 0 && a.r.Dy == 0 && root(a.glyphBuf.Ends) != root(a.r.cellIndex)

// ---- the rune cache: gidx[c] is what the font's Index last returned for the rune c
ghost gidx arr
pred runesok(a *truetype.face) = forall s int {a.indexCache[s].rune} :: 0 <= s && s < 256 && a.indexCache[s].rune >= 0 ==> mod(a.indexCache[s].rune, 256) == s && a.indexCache[s].index == gidx[a.indexCache[s].rune]

func truetype.(*face).index(a, r) (i)
props C24
requires a.f != nil && fontok(a.f) && runesok(a)
modifies elems(a.indexCache), gidx
ensures runesok(a)
ensures r >= 0 ==> i == gidx[r]
ensures forall c int {gidx[c]} :: c != r ==> gidx[c] == old(gidx)[c]
oncall truetype.(*Font).Index(f, x)
requires f == a.f && x == r
set gidx = upd(gidx, x, result)

ghost gkern int
func truetype.(*face).Kern(a, r0, r1) (k)
props C24
requires faceok(a) && runesok(a)
modifies elems(a.indexCache), gidx, gkern
ensures runesok(a)
ensures k == (a.hinting != 0 ? int32(int32(gkern + 32) - mod(int32(gkern + 32), 64)) : gkern)
oncall truetype.(*Font).Kern(f, scale, i0, i1)
requires f == a.f && scale == a.scale && (r0 >= 0 && r0 != r1 ==> i0 == gidx[r0]) && (r1 >= 0 ==> i1 == gidx[r1])
set gkern = result

// the state a load leaves the face's buffer in
ghost gloaded int
func truetype.(*face).GlyphAdvance(a, r) (advance, ok)
props C24
allocates
requires faceok(a) && bufsok(a) && runesok(a)
modifies elems(a.indexCache), gidx, gloaded, a.glyphBuf.Points, elems(a.glyphBuf.Points), a.glyphBuf.InFontUnits, elems(a.glyphBuf.InFontUnits), a.glyphBuf.Unhinted, elems(a.glyphBuf.Unhinted), a.glyphBuf.Ends, elems(a.glyphBuf.Ends), a.glyphBuf.font, a.glyphBuf.scale, a.glyphBuf.hinting, a.glyphBuf.AdvanceWidth, a.glyphBuf.Bounds, a.glyphBuf.phantomPoints, a.glyphBuf.pp1x, a.glyphBuf.metricsSet, a.glyphBuf.numLoads, a.glyphBuf.tmp, elems(a.glyphBuf.tmp), gruns,
  a.glyphBuf.hinter.font, a.glyphBuf.hinter.scale, a.glyphBuf.hinter.functions, a.glyphBuf.hinter.stack, a.glyphBuf.hinter.store, a.glyphBuf.hinter.gs, a.glyphBuf.hinter.defaultGS, a.glyphBuf.hinter.points, a.glyphBuf.hinter.ends, a.glyphBuf.hinter.scaledCVTInitialized, a.glyphBuf.hinter.scaledCVT, elems(a.glyphBuf.hinter.scaledCVT), elems(a.glyphBuf.hinter.stack), elems(a.glyphBuf.hinter.store), elems(a.glyphBuf.hinter.functions), elems(a.glyphBuf.hinter.points[0][0]), elems(a.glyphBuf.hinter.points[0][1]), elems(a.glyphBuf.hinter.points[0][2])
ensures bufsok(a) && runesok(a)
ensures ok ==> gloaded == 1 && advance == a.glyphBuf.AdvanceWidth
oncall truetype.(*GlyphBuf).Load(g, f, scale, i, h)
requires ref(g) == ref(addr(a.glyphBuf)) && f == a.f && scale == a.scale && h == a.hinting && (r >= 0 ==> i == gidx[r])
set gloaded = tag(result) == 0 ? 1 : 0

func truetype.(*face).GlyphBounds(a, r) (bounds, advance, ok)
props C24
allocates
requires faceok(a) && bufsok(a) && runesok(a)
modifies elems(a.indexCache), gidx, gloaded, a.glyphBuf.Points, elems(a.glyphBuf.Points), a.glyphBuf.InFontUnits, elems(a.glyphBuf.InFontUnits), a.glyphBuf.Unhinted, elems(a.glyphBuf.Unhinted), a.glyphBuf.Ends, elems(a.glyphBuf.Ends), a.glyphBuf.font, a.glyphBuf.scale, a.glyphBuf.hinting, a.glyphBuf.AdvanceWidth, a.glyphBuf.Bounds, a.glyphBuf.phantomPoints, a.glyphBuf.pp1x, a.glyphBuf.metricsSet, a.glyphBuf.numLoads, a.glyphBuf.tmp, elems(a.glyphBuf.tmp), gruns,
  a.glyphBuf.hinter.font, a.glyphBuf.hinter.scale, a.glyphBuf.hinter.functions, a.glyphBuf.hinter.stack, a.glyphBuf.hinter.store, a.glyphBuf.hinter.gs, a.glyphBuf.hinter.defaultGS, a.glyphBuf.hinter.points, a.glyphBuf.hinter.ends, a.glyphBuf.hinter.scaledCVTInitialized, a.glyphBuf.hinter.scaledCVT, elems(a.glyphBuf.hinter.scaledCVT), elems(a.glyphBuf.hinter.stack), elems(a.glyphBuf.hinter.store), elems(a.glyphBuf.hinter.functions), elems(a.glyphBuf.hinter.points[0][0]), elems(a.glyphBuf.hinter.points[0][1]), elems(a.glyphBuf.hinter.points[0][2])
ensures bufsok(a) && runesok(a)
ensures ok ==> gloaded == 1 && advance == a.glyphBuf.AdvanceWidth
ensures ok ==> bounds.Min.X == a.glyphBuf.Bounds.Min.X && bounds.Max.X == a.glyphBuf.Bounds.Max.X && bounds.Min.Y == int32(-a.glyphBuf.Bounds.Max.Y) && bounds.Max.Y == int32(-a.glyphBuf.Bounds.Min.Y)
oncall truetype.(*GlyphBuf).Load(g, f, scale, i, h)
requires ref(g) == ref(addr(a.glyphBuf)) && f == a.f && scale == a.scale && h == a.hinting && (r >= 0 ==> i == gidx[r])
set gloaded = tag(result) == 0 ? 1 : 0

// ---- rasterizing one glyph into the slot at paintOffset
// the pixel box of a glyph at (fx, fy)
def boxx0(b *truetype.GlyphBuf, fx int) int = div(int32(fx + b.Bounds.Min.X), 64)
def boxy0(b *truetype.GlyphBuf, fy int) int = div(int32(fy - b.Bounds.Max.Y), 64)
def boxx1(b *truetype.GlyphBuf, fx int) int = div(int32(int32(fx + b.Bounds.Max.X) + 63), 64)
def boxy1(b *truetype.GlyphBuf, fy int) int = div(int32(int32(fy - b.Bounds.Min.Y) + 63), 64)
pred zeroed(P arr, o int, n int) = forall b int {P[b]} :: o <= b && b < o + n ==> P[b] == 0

lemma slotmono(a int, b int, s int)
requires 0 <= a && a <= b && 0 <= s
ensures 0 <= a*s && a*s <= b*s

lemma slotinside(po int, h int, w int, n int)
requires 0 <= po && po + h <= n && 0 <= w && 0 <= h
use slotmono(0, po, w)
use slotmono(po + h, n, w)
ensures 0 <= po*w && po*w + w*h <= w*n && 0 <= w*h

ghost gcontours int
ghost gpix arr
func truetype.(*face).rasterize(a, index, fx, fy) (v, ok)
props C24
allocates
requires faceok(a) && bufsok(a) && slotok(a)
use slotinside(a.paintOffset, a.maxh, a.maxw, a.maxh*len(a.glyphCache)) at entry
modifies gloaded, gcontours, gpix, elems(a.masks.Pix), a.glyphBuf.Points, elems(a.glyphBuf.Points), a.glyphBuf.InFontUnits, elems(a.glyphBuf.InFontUnits), a.glyphBuf.Unhinted, elems(a.glyphBuf.Unhinted), a.glyphBuf.Ends, elems(a.glyphBuf.Ends), a.glyphBuf.font, a.glyphBuf.scale, a.glyphBuf.hinting, a.glyphBuf.AdvanceWidth, a.glyphBuf.Bounds, a.glyphBuf.phantomPoints, a.glyphBuf.pp1x, a.glyphBuf.metricsSet, a.glyphBuf.numLoads, a.glyphBuf.tmp, elems(a.glyphBuf.tmp), gruns,
  a.glyphBuf.hinter.font, a.glyphBuf.hinter.scale, a.glyphBuf.hinter.functions, a.glyphBuf.hinter.stack, a.glyphBuf.hinter.store, a.glyphBuf.hinter.gs, a.glyphBuf.hinter.defaultGS, a.glyphBuf.hinter.points, a.glyphBuf.hinter.ends, a.glyphBuf.hinter.scaledCVTInitialized, a.glyphBuf.hinter.scaledCVT, elems(a.glyphBuf.hinter.scaledCVT), elems(a.glyphBuf.hinter.stack), elems(a.glyphBuf.hinter.store), elems(a.glyphBuf.hinter.functions), elems(a.glyphBuf.hinter.points[0][0]), elems(a.glyphBuf.hinter.points[0][1]), elems(a.glyphBuf.hinter.points[0][2]),
  a.r.cell, elems(a.r.cell), elems(a.r.cellIndex), a.r.area, a.r.cover, a.r.xi, a.r.yi, a.r.a, elems(a.r.spanBuf), cellrow, gc, gcurves, gpt, gcloses, glast, glasty, glastx, gdone
ensures bufsok(a)
ensures ok ==> slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
ensures !ok ==> row(a.masks.Pix) == old(row(a.masks.Pix))
ensures ok ==> gloaded == 2 && v.advanceWidth == a.glyphBuf.AdvanceWidth && v.offset.X == boxx0(addr(a.glyphBuf), fx) && v.offset.Y == boxy0(addr(a.glyphBuf), fy)
ensures ok ==> v.gw == min(boxx1(addr(a.glyphBuf), fx) - boxx0(addr(a.glyphBuf), fx), a.maxw) && v.gh == min(boxy1(addr(a.glyphBuf), fy) - boxy0(addr(a.glyphBuf), fy), a.maxh)
ensures ok ==> 0 <= v.gw && 0 <= v.gh
hint ok ==> slotonly(gpix, old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
hint ok ==> slotonly(row(a.masks.Pix), gpix, off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
loop 1
invariant 0 <= iter(1) && iter(1) <= len(a.glyphBuf.Ends) && gcontours == iter(1) && e0 == (gcontours == 0 ? 0 : a.glyphBuf.Ends[gcontours-1]) && gloaded == 1
invariant bufsok(a) && (gcontours == 0 ==> emptyr(addr(a.r)))
invariant ref(a.r.cell) == pre(ref(a.r.cell)) || fresh(a.r.cell)
oncall truetype.(*GlyphBuf).Load(g, f, scale, i, h)
requires ref(g) == ref(addr(a.glyphBuf)) && f == a.f && scale == a.scale && i == index && h == a.hinting
set gloaded = tag(result) == 0 ? 1 : 0
set gcontours = 0
oncall truetype.(*face).drawContour(b, ps, dx, dy)
requires b == a && gloaded == 1 && gcontours < len(a.glyphBuf.Ends) && (gcontours == 0 ==> emptyr(addr(a.r)))
requires ref(ps) == ref(a.glyphBuf.Points) && off(ps) == off(a.glyphBuf.Points) + (gcontours == 0 ? 0 : a.glyphBuf.Ends[gcontours-1]) && off(ps) + len(ps) == off(a.glyphBuf.Points) + a.glyphBuf.Ends[gcontours]
requires dx == int32(old(fx) - int32(64*boxx0(addr(a.glyphBuf), old(fx)))) && dy == int32(old(fy) - int32(64*boxy0(addr(a.glyphBuf), old(fy))))
set gcontours = gcontours + 1
oncall raster.(*Rasterizer).Rasterize(r, p)
requires ref(r) == ref(addr(a.r)) && p == a.p && gloaded == 1 && gcontours == len(a.glyphBuf.Ends) && (gcontours == 0 ==> emptyr(addr(a.r)))
requires zeroed(row(a.masks.Pix), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
requires slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
setpre gpix = row(a.masks.Pix)
setpre glast = false
setpre gdone = 0
set gloaded = 2

func truetype.clear(pix)
props C24
modifies elems(pix)
ensures zeroed(row(pix), off(pix), len(pix)) && slotonly(row(pix), old(row(pix)), off(pix), len(pix))
loop 1
invariant zeroed(row(pix), off(pix), it) && slotonly(row(pix), old(row(pix)), off(pix), it)

// ---- the glyph cache. For the slot j (counted with the offset of a.glyphCache): what rasterize was last
// given (gki, gkx, gky) and returned (the others) for it.
ghost gki arr
ghost gkx arr
ghost gky arr
ghost gkadv arr
ghost gkox arr
ghost gkoy arr
ghost gkw arr
ghost gkh arr
ghost gslot int
pred cachesok(KI arr, KX arr, KY arr, A arr, OX arr, OY arr, W arr, H arr, o int, n int) = forall j int {KY[j]} :: o <= j && j < o + n && KY[j] < 64 ==>
  gki[j] == KI[j] && gkx[j] == KX[j] && gky[j] == KY[j] && gkadv[j] == A[j] && gkox[j] == OX[j] && gkoy[j] == OY[j] && gkw[j] == W[j] && gkh[j] == H[j]
pred cacheok(a *truetype.face) = cachesok(row(a.glyphCache,key,index), row(a.glyphCache,key,fx), row(a.glyphCache,key,fy), row(a.glyphCache,val,advanceWidth), row(a.glyphCache,val,offset,X), row(a.glyphCache,val,offset,Y), row(a.glyphCache,val,gw), row(a.glyphCache,val,gh), off(a.glyphCache), len(a.glyphCache))
// the nearest of q sub-pixel positions
def quantized(x int, q int) int = int32(x + div(32, q)) - mod(int32(x + div(32, q)), div(64, q))

lemma slotbound(c int, n int, h int)
requires 0 <= c && c < n && 0 <= h && h <= 1048576 && n <= 140737488355328
use slotmono(c, n, h)
use slotmono(c + 1, n, h)
use slotmono(h, 1048576, c)
ensures 0 <= h*c && h*c + h <= h*n && h*c <= 1048576*c

func truetype.(*face).Glyph(a, dot, r) (dr, mask, maskp, advance, ok)
props C24 C25
allocates
requires faceok(a) && bufsok(a) && runesok(a) && cacheok(a)
modifies elems(a.indexCache), gidx, a.paintOffset, elems(a.glyphCache), gki, gkx, gky, gkadv, gkox, gkoy, gkw, gkh, gslot, gloaded, gcontours, gpix, elems(a.masks.Pix), a.glyphBuf.Points, elems(a.glyphBuf.Points), a.glyphBuf.InFontUnits, elems(a.glyphBuf.InFontUnits), a.glyphBuf.Unhinted, elems(a.glyphBuf.Unhinted), a.glyphBuf.Ends, elems(a.glyphBuf.Ends), a.glyphBuf.font, a.glyphBuf.scale, a.glyphBuf.hinting, a.glyphBuf.AdvanceWidth, a.glyphBuf.Bounds, a.glyphBuf.phantomPoints, a.glyphBuf.pp1x, a.glyphBuf.metricsSet, a.glyphBuf.numLoads, a.glyphBuf.tmp, elems(a.glyphBuf.tmp), gruns,
  a.glyphBuf.hinter.font, a.glyphBuf.hinter.scale, a.glyphBuf.hinter.functions, a.glyphBuf.hinter.stack, a.glyphBuf.hinter.store, a.glyphBuf.hinter.gs, a.glyphBuf.hinter.defaultGS, a.glyphBuf.hinter.points, a.glyphBuf.hinter.ends, a.glyphBuf.hinter.scaledCVTInitialized, a.glyphBuf.hinter.scaledCVT, elems(a.glyphBuf.hinter.scaledCVT), elems(a.glyphBuf.hinter.stack), elems(a.glyphBuf.hinter.store), elems(a.glyphBuf.hinter.functions), elems(a.glyphBuf.hinter.points[0][0]), elems(a.glyphBuf.hinter.points[0][1]), elems(a.glyphBuf.hinter.points[0][2]),
  a.r.cell, elems(a.r.cell), elems(a.r.cellIndex), a.r.area, a.r.cover, a.r.xi, a.r.yi, a.r.a, elems(a.r.spanBuf), cellrow, gc, gcurves, gpt, gcloses, glast, glasty, glastx, gdone
set gslot = cIndex
use slotbound(cIndex, len(a.glyphCache), a.maxh)
ensures bufsok(a) && runesok(a)
ensures cacheok(a)
ensures ok ==> 0 <= gslot && gslot < len(a.glyphCache) && maskp.X == 0 && maskp.Y == a.maxh*gslot
ensures ok ==> istype(mask, image.Alpha, ptr) && asptr(mask, image.Alpha) == a.masks
ensures ok && r >= 0 ==> gki[off(a.glyphCache) + gslot] == gidx[r]
ensures ok ==> gkx[off(a.glyphCache) + gslot] == mod(quantized(dot.X, a.subPixelX), 64) && gky[off(a.glyphCache) + gslot] == mod(quantized(dot.Y, a.subPixelY), 64)
ensures ok ==> advance == gkadv[off(a.glyphCache) + gslot]
ensures ok ==> dr.Min.X == int64(div(quantized(dot.X, a.subPixelX), 64) + gkox[off(a.glyphCache) + gslot]) && dr.Min.Y == int64(div(quantized(dot.Y, a.subPixelY), 64) + gkoy[off(a.glyphCache) + gslot])
ensures ok ==> dr.Max.X == int64(dr.Min.X + gkw[off(a.glyphCache) + gslot]) && dr.Max.Y == int64(dr.Min.Y + gkh[off(a.glyphCache) + gslot])
ensures slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh) && (ok ==> a.paintOffset == maskp.Y)
ensures forall j int {gki[j]} :: j != off(a.glyphCache) + gslot ==> gki[j] == old(gki)[j] && gkx[j] == old(gkx)[j] && gky[j] == old(gky)[j]
oncall truetype.(*face).rasterize(b, index, fx, fy)
use slotbound(cIndex, len(a.glyphCache), a.maxh)
requires b == a && 0 <= cIndex && cIndex < len(a.glyphCache) && a.paintOffset == a.maxh*cIndex
setpre glast = false
set gki = result1 ? upd(gki, off(a.glyphCache) + cIndex, index) : gki
set gkx = result1 ? upd(gkx, off(a.glyphCache) + cIndex, fx) : gkx
set gky = result1 ? upd(gky, off(a.glyphCache) + cIndex, fy) : gky
set gkadv = result1 ? upd(gkadv, off(a.glyphCache) + cIndex, result0.advanceWidth) : gkadv
set gkox = result1 ? upd(gkox, off(a.glyphCache) + cIndex, result0.offset.X) : gkox
set gkoy = result1 ? upd(gkoy, off(a.glyphCache) + cIndex, result0.offset.Y) : gkoy
set gkw = result1 ? upd(gkw, off(a.glyphCache) + cIndex, result0.gw) : gkw
set gkh = result1 ? upd(gkh, off(a.glyphCache) + cIndex, result0.gh) : gkh

// ---- C25: NewFace
extern image.Rect(x0, y0, x1, y1) (r)
ensures x0 <= x1 && y0 <= y1 ==> r.Min.X == x0 && r.Min.Y == y0 && r.Max.X == x1 && r.Max.Y == y1

// NewAlpha returns only if the image can be allocated.
extern image.NewAlpha(r) (m)
allocates
requires r.Min.X == 0 && r.Min.Y == 0 && 0 <= r.Max.X && 0 <= r.Max.Y
ensures m != nil && idx(m) == 0 && fresh(m) && fresh(m.Pix) && ref(m.Pix) >= 0 && off(m.Pix) == 0 && len(m.Pix) == r.Max.X*r.Max.Y && m.Stride == r.Max.X
ensures m.Rect.Min.X == 0 && m.Rect.Min.Y == 0 && m.Rect.Max.X == r.Max.X && m.Rect.Max.Y == r.Max.Y
ensures zeroed(row(m.Pix), 0, len(m.Pix))

def facescale(size float64, dpi float64) int = f2i32(f2(fadd, fconst(1_2), f2(fdivide, f2(fmul, f2(fmul, size, dpi), fconst(64)), fconst(72))))
def optsize(o *truetype.Options) float64 = (o != nil && flt(fconst(0), o.Size) ? o.Size : fconst(12))
def optdpi(o *truetype.Options) float64 = (o != nil && flt(fconst(0), o.DPI) ? o.DPI : fconst(72))
def optcache(o *truetype.Options) int = o != nil && ispow2(o.GlyphCacheEntries) ? o.GlyphCacheEntries : 512
// the font's bounding box is at most 2^17 pixels from the origin at that scale
pred smallat(v int, scale int, u int) = abs(scale*v) <= 8388608*u && abs(scale*v) + div(u, 2) <= 2147483647
pred boxsmall(f *truetype.Font, scale int) = smallat(f.bounds.Min.X, scale, f.fUnitsPerEm) && smallat(f.bounds.Min.Y, scale, f.fUnitsPerEm) && smallat(f.bounds.Max.X, scale, f.fUnitsPerEm) && smallat(f.bounds.Max.Y, scale, f.fUnitsPerEm)

lemma nearsmall(y int, v int, scale int, u int)
requires u > 0 && smallat(v, scale, u) && scaled(y, v, scale, u)
ensures abs(y) <= 8388608

func truetype.NewFace(f, opts) (face)
props C24 C25
allocates
nilable opts
opt bigalloc
requires f != nil && fontok(f) && (opts != nil ==> opts.GlyphCacheEntries <= 1099511627776)
requires boxsmall(f, facescale(optsize(opts), optdpi(opts)))
ensures istype(face, truetype.face, ptr)
ensures asptr(face, truetype.face).f == f && asptr(face, truetype.face).scale == facescale(optsize(opts), optdpi(opts))
ensures asptr(face, truetype.face).hinting == (opts != nil && (opts.Hinting == 1 || opts.Hinting == 2) ? 2 : 0)
ensures len(asptr(face, truetype.face).glyphCache) == optcache(opts)
ensures asptr(face, truetype.face).subPixelX == (opts == nil ? 4 : subq(opts.SubPixelsX, 4))
ensures asptr(face, truetype.face).subPixelY == (opts == nil ? 1 : subq(opts.SubPixelsY, 1))
ensures[C24] faceok(asptr(face, truetype.face))
ensures[C24] bufsok(asptr(face, truetype.face))
ensures[C24] runesok(asptr(face, truetype.face))
ensures[C24] cacheok(asptr(face, truetype.face))
oncall image.Rect(x0, y0, x1, y1)
use slotmono(0, len(a.glyphCache), a.maxh)
use slotmono(len(a.glyphCache), 1099511627776, a.maxh)
requires x0 == 0 && y0 == 0 && x1 == a.maxw && y1 == a.maxh*len(a.glyphCache) && 0 <= x1 && x1 <= 1048576 && 0 <= y1
oncall image.NewAlpha(r)
requires r.Min.X == 0 && r.Min.Y == 0 && r.Max.X == a.maxw && r.Max.Y == a.maxh*len(a.glyphCache)
loop 1
invariant forall j int {row(a.glyphCache,key,fy)[j]} :: off(a.glyphCache) <= j && j < off(a.glyphCache) + it ==> row(a.glyphCache,key,fy)[j] == 255
loop 2
invariant forall s int {a.indexCache[s].rune} :: 0 <= s && s < it ==> a.indexCache[s].rune == -1

extern math.Ceil(x) (z)
ensures z == f2(u_ceil, x, x)

// The line height is the scale; ascent and descent are the font's, scaled and rounded up.
def ceilscaled(scale int, v int, upm int) int = f2i32(f2(u_ceil, f2(fdivide, f2(fmul, i2f(scale), i2f(v)), i2f(upm)), f2(fdivide, f2(fmul, i2f(scale), i2f(v)), i2f(upm))))

func truetype.(*face).Metrics(a) (m)
props C25
requires a.f != nil && fontok(a.f)
ensures m.Height == a.scale
ensures m.Ascent == ceilscaled(a.scale, a.f.ascent, a.f.fUnitsPerEm) && m.Descent == ceilscaled(a.scale, -a.f.descent, a.f.fUnitsPerEm)
