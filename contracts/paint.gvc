// Contracts for raster/paint.go.

// An image's pixel buffer: rows of Stride bytes, n bytes per pixel, and the
// last row's pixels lie inside Pix. (PixOffset is (y-Min.Y)*Stride + (x-Min.X)*n.)
pred pixok(x0 int, y0 int, x1 int, y1 int, stride int, n int, size int) =
  -2305843009213693952 <= x0 <= 2305843009213693952 && -2305843009213693952 <= y0 <= 2305843009213693952
  && -2305843009213693952 <= x1 <= 2305843009213693952 && -2305843009213693952 <= y1 <= 2305843009213693952
  && 0 <= stride <= 140737488355328
  && (x0 < x1 && y0 < y1 ==> (y1-1-y0)*stride + (x1-x0)*n <= size && (x1-x0)*n <= stride)

pred alphaok(m *image.Alpha) = pixok(m.Rect.Min.X, m.Rect.Min.Y, m.Rect.Max.X, m.Rect.Max.Y, m.Stride, 1, len(m.Pix))
pred rgbaok(m *image.RGBA) = pixok(m.Rect.Min.X, m.Rect.Min.Y, m.Rect.Max.X, m.Rect.Max.Y, m.Stride, 4, len(m.Pix))

pred ysorted(ss []raster.Span) = forall i int, j int {row(ss,Y)[i], row(ss,Y)[j]} :: off(ss) <= i && i < j && j < off(ss)+len(ss) ==> row(ss,Y)[i] <= row(ss,Y)[j]

lemma mulmono(a int, b int, s int)
requires 0 <= a && a <= b && 0 <= s
ensures 0 <= a*s && a*s <= b*s

// Byte j of the buffer belongs to a pixel of the clipped span (y, a, b).
pred covers(x0 int, y0 int, x1 int, y1 int, stride int, n int, y int, a int, b int, j int) =
  y0 <= y && y < y1 && max(a,x0) < min(b,x1)
  && (y-y0)*stride + (max(a,x0)-x0)*n <= j && j < (y-y0)*stride + (min(b,x1)-x0)*n

// ---- C15
// What byte j, v before, is after the first n spans (arrays of Y, X0, X1, Alpha from o on) are composited over it.
spec alphaover(Y arr, X0 arr, X1 arr, A arr, o int, n int, x0 int, y0 int, x1 int, y1 int, stride int, j int, v int) int =
  n <= 0 ? v : (covers(x0,y0,x1,y1,stride,1,Y[o+n-1],X0[o+n-1],X1[o+n-1],j)
    ? (let p = alphaover(Y,X0,X1,A,o,n-1,x0,y0,x1,y1,stride,j,v); div(255*p + (255-p)*div(A[o+n-1],256), 255))
    : alphaover(Y,X0,X1,A,o,n-1,x0,y0,x1,y1,stride,j,v))

lemma overbound(v int, a int)
requires 0 <= v && v <= 255 && 0 <= a && a <= 255
ensures 0 <= (255-v)*a && (255-v)*a <= (255-v)*255

lemma alphaoverrest(Y arr, X0 arr, X1 arr, A arr, o int, m int, n int, x0 int, y0 int, x1 int, y1 int, stride int)
requires 0 <= m && m <= n
requires forall i int {Y[i]} :: o+m <= i && i < o+n ==> Y[i] >= y1
induct n
use alphaoverrest(Y, X0, X1, A, o, m, n-1, x0, y0, x1, y1, stride)
ensures forall j int, v int {alphaover(Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v)} :: alphaover(Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v) == alphaover(Y,X0,X1,A,o,m,x0,y0,x1,y1,stride,j,v)

func raster.AlphaOverPainter.Paint(r, ss, done)
props C15
requires r.Image != nil && alphaok(r.Image) && ysorted(ss)
requires forall i int {ss[i].Alpha} :: 0 <= i < len(ss) ==> 0 <= ss[i].Alpha <= 65535
modifies elems(r.Image.Pix)
ensures forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == alphaover(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
use alphaoverrest(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), iter(1)-1, len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride) at return
loop 1
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == alphaover(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), it, r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
loop 2
use overbound(v, a)
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == (off(p) <= b && b < off(p) + it ? div(255*pre(row(r.Image.Pix))[b] + (255-pre(row(r.Image.Pix))[b])*a, 255) : pre(row(r.Image.Pix))[b])

// What byte j, v before, is after the first n spans (arrays of Y, X0, X1, Alpha from o on) replace it.
spec alphasrc(Y arr, X0 arr, X1 arr, A arr, o int, n int, x0 int, y0 int, x1 int, y1 int, stride int, j int, v int) int =
  n <= 0 ? v : (covers(x0,y0,x1,y1,stride,1,Y[o+n-1],X0[o+n-1],X1[o+n-1],j)
    ? div(A[o+n-1],256)
    : alphasrc(Y,X0,X1,A,o,n-1,x0,y0,x1,y1,stride,j,v))

lemma alphasrcrest(Y arr, X0 arr, X1 arr, A arr, o int, m int, n int, x0 int, y0 int, x1 int, y1 int, stride int)
requires 0 <= m && m <= n
requires forall i int {Y[i]} :: o+m <= i && i < o+n ==> Y[i] >= y1
induct n
use alphasrcrest(Y, X0, X1, A, o, m, n-1, x0, y0, x1, y1, stride)
ensures forall j int, v int {alphasrc(Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v)} :: alphasrc(Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v) == alphasrc(Y,X0,X1,A,o,m,x0,y0,x1,y1,stride,j,v)

func raster.AlphaSrcPainter.Paint(r, ss, done)
props C15
requires r.Image != nil && alphaok(r.Image) && ysorted(ss)
requires forall i int {ss[i].Alpha} :: 0 <= i < len(ss) ==> 0 <= ss[i].Alpha <= 65535
modifies elems(r.Image.Pix)
ensures forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == alphasrc(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
use alphasrcrest(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), iter(1)-1, len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride) at return
loop 1
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == alphasrc(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), it, r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
loop 2
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == (off(p) <= b && b < off(p) + it ? div(row(ss,Alpha)[off(ss)+iter(1)-1],256) : pre(row(r.Image.Pix))[b])

// ---- C16
// One byte, channel ch, v before, of a pixel composited with the colour at alpha ma: Porter-Duff, 16-bit, rounded down.
spec chan(ch int, cr int, cg int, cb int, ca int) int = ch == 0 ? cr : (ch == 1 ? cg : (ch == 2 ? cb : ca))
opaque pdover(v int, c int, ca int, ma int) int = div(div(v*((65535 - div(ca*ma, 65535))*257) + c*ma, 65535), 256)
opaque pdsrc(c int, ma int) int = div(div(c*ma, 65535), 256)

spec rgbapix(over bool, cr int, cg int, cb int, ca int, Y arr, X0 arr, X1 arr, A arr, o int, n int, x0 int, y0 int, x1 int, y1 int, stride int, j int, v int) int =
  n <= 0 ? v : (covers(x0,y0,x1,y1,stride,4,Y[o+n-1],X0[o+n-1],X1[o+n-1],j)
    ? (let p = rgbapix(over,cr,cg,cb,ca,Y,X0,X1,A,o,n-1,x0,y0,x1,y1,stride,j,v); let c = chan(mod(j-((Y[o+n-1]-y0)*stride+(max(X0[o+n-1],x0)-x0)*4),4),cr,cg,cb,ca);
       over ? pdover(p, c, ca, A[o+n-1]) : pdsrc(c, A[o+n-1]))
    : rgbapix(over,cr,cg,cb,ca,Y,X0,X1,A,o,n-1,x0,y0,x1,y1,stride,j,v))

lemma rgbarest(over bool, cr int, cg int, cb int, ca int, Y arr, X0 arr, X1 arr, A arr, o int, m int, n int, x0 int, y0 int, x1 int, y1 int, stride int)
requires 0 <= m && m <= n
requires forall i int {Y[i]} :: o+m <= i && i < o+n ==> Y[i] >= y1
induct n
use rgbarest(over, cr, cg, cb, ca, Y, X0, X1, A, o, m, n-1, x0, y0, x1, y1, stride)
ensures forall j int, v int {rgbapix(over,cr,cg,cb,ca,Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v)} :: rgbapix(over,cr,cg,cb,ca,Y,X0,X1,A,o,n,x0,y0,x1,y1,stride,j,v) == rgbapix(over,cr,cg,cb,ca,Y,X0,X1,A,o,m,x0,y0,x1,y1,stride,j,v)

// A premultiplied colour at any alpha neither overflows 32 bits nor exceeds 16 bits.
lemma divself(x int, y int, m int)
requires m > 0 && x <= y
ensures div(x, m) <= div(y, m)

lemma pdnooverflow(v int, c int, ca int, ma int)
requires 0 <= v && v <= 255 && 0 <= c && c <= ca && ca <= 65535 && 0 <= ma && ma <= 65535
use mulmono(c, ca, ma)
use mulmono(ca, 65535, ma)
use mulmono(v*257, 65535, 65535 - div(ca*ma, 65535))
ensures 0 <= c*ma && c*ma <= ca*ma && ca*ma <= 4294836225
ensures 0 <= div(ca*ma, 65535) && div(ca*ma, 65535) <= 65535
ensures v*((65535 - div(ca*ma, 65535))*257) >= 0
ensures v*((65535 - div(ca*ma, 65535))*257) + c*ma < 65535*65536
ensures unfold(pdover(v, c, ca, ma), 1) == div(div(v*((65535 - div(ca*ma, 65535))*257) + c*ma, 65535), 256)
ensures unfold(pdsrc(c, ma), 1) == div(div(c*ma, 65535), 256)
ensures uint8(div(div(uint32(uint32((65535 - div(uint32(ca*ma), 65535))*257)*v + c*ma), 65535), 256)) == pdover(v, c, ca, ma)
ensures 0 <= pdover(v, c, ca, ma) && pdover(v, c, ca, ma) <= 255
ensures 0 <= pdsrc(c, ma) && pdsrc(c, ma) <= 255

pred premul(r *raster.RGBAPainter) = r.cr <= r.ca && r.cg <= r.ca && r.cb <= r.ca && r.ca <= 65535

func raster.(*RGBAPainter).Paint(r, ss, done)
props C16
split
requires r != nil && r.Image != nil && rgbaok(r.Image) && ysorted(ss) && premul(r)
requires forall i int {ss[i].Alpha} :: 0 <= i < len(ss) ==> 0 <= ss[i].Alpha <= 65535
modifies elems(r.Image.Pix)
ensures forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == rgbapix(r.Op == 0, r.cr, r.cg, r.cb, r.ca, row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
use rgbarest(r.Op == 0, r.cr, r.cg, r.cb, r.ca, row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), iter(1)-1, len(ss), r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride) at return
loop 1
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == rgbapix(r.Op == 0, r.cr, r.cg, r.cb, r.ca, row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), it, r.Image.Rect.Min.X, r.Image.Rect.Min.Y, r.Image.Rect.Max.X, r.Image.Rect.Max.Y, r.Image.Stride, b - off(r.Image.Pix), old(row(r.Image.Pix))[b])
loop 2
use pdnooverflow(r.Image.Pix[i], r.cr, r.ca, ma) at head
use pdnooverflow(r.Image.Pix[goint(i+1)], r.cg, r.ca, ma) at head
use pdnooverflow(r.Image.Pix[goint(i+2)], r.cb, r.ca, ma) at head
use pdnooverflow(r.Image.Pix[goint(i+3)], r.ca, r.ca, ma) at head
invariant i0 <= i && i <= i1 && mod(i1 - i, 4) == 0 && mod(i - i0, 4) == 0
invariant i0 == (row(ss,Y)[off(ss)+iter(1)-1]-r.Image.Rect.Min.Y)*r.Image.Stride + (max(row(ss,X0)[off(ss)+iter(1)-1], r.Image.Rect.Min.X)-r.Image.Rect.Min.X)*4 && i1 == (row(ss,Y)[off(ss)+iter(1)-1]-r.Image.Rect.Min.Y)*r.Image.Stride + (min(row(ss,X1)[off(ss)+iter(1)-1], r.Image.Rect.Max.X)-r.Image.Rect.Min.X)*4
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == (i0 <= b - off(r.Image.Pix) && b - off(r.Image.Pix) < i ?  pdover(pre(row(r.Image.Pix))[b], chan(mod(b - off(r.Image.Pix) - i0, 4), r.cr, r.cg, r.cb, r.ca), r.ca, ma) : pre(row(r.Image.Pix))[b])
decreases i1 - i
loop 3
use pdnooverflow(0, r.cr, r.ca, ma)
use pdnooverflow(0, r.cg, r.ca, ma)
use pdnooverflow(0, r.cb, r.ca, ma)
use pdnooverflow(0, r.ca, r.ca, ma)
invariant i0 <= i && i <= i1 && mod(i1 - i, 4) == 0 && mod(i - i0, 4) == 0
invariant i0 == (row(ss,Y)[off(ss)+iter(1)-1]-r.Image.Rect.Min.Y)*r.Image.Stride + (max(row(ss,X0)[off(ss)+iter(1)-1], r.Image.Rect.Min.X)-r.Image.Rect.Min.X)*4 && i1 == (row(ss,Y)[off(ss)+iter(1)-1]-r.Image.Rect.Min.Y)*r.Image.Stride + (min(row(ss,X1)[off(ss)+iter(1)-1], r.Image.Rect.Max.X)-r.Image.Rect.Min.X)*4
invariant forall b int {row(r.Image.Pix)[b]} :: row(r.Image.Pix)[b] == (i0 <= b - off(r.Image.Pix) && b - off(r.Image.Pix) < i ?  pdsrc(chan(mod(b - off(r.Image.Pix) - i0, 4), r.cr, r.cg, r.cb, r.ca), ma) : pre(row(r.Image.Pix))[b])
decreases i1 - i

// A colour's components are premultiplied, as its interface documents.
iface image/color.Color.RGBA(c) (r, g, b, a)
ensures 0 <= r <= a && 0 <= g <= a && 0 <= b <= a && a <= 65535

func raster.(*RGBAPainter).SetColor(r, c)
props C16
requires r != nil && tag(c) != 0
modifies r.cr, r.cg, r.cb, r.ca
ensures premul(r)

func raster.NewRGBAPainter(m) (r)
props C16
allocates
nilable m
ensures r != nil && r.Image == m && premul(r)

func raster.NewAlphaOverPainter(m) (r)
props C15
nilable m
ensures r.Image == m

func raster.NewAlphaSrcPainter(m) (r)
props C15
nilable m
ensures r.Image == m

// ---- C17
// What a wrapped painter receives. (gpy, gpx) is any pixel: it is never assigned.
ghost gpy int
ghost gpx int
ghost gcnt int
ghost gdone int
ghost glast bool
ghost glasty int
ghost glastx int

// How many of n spans with at least half alpha cover the pixel (y, x).
spec hits(Y arr, X0 arr, X1 arr, A arr, o int, n int, y int, x int) int =
  n <= 0 ? 0 : hits(Y,X0,X1,A,o,n-1,y,x) + (A[o+n-1] >= 32768 && Y[o+n-1] == y && X0[o+n-1] <= x && x < X1[o+n-1] ? 1 : 0)

lemma hitsframe(Y arr, X0 arr, X1 arr, A arr, Y2 arr, X02 arr, X12 arr, A2 arr, o int, n int, y int, x int)
requires forall i int {Y2[i]} :: o <= i && i < o+n ==> Y[i] == Y2[i] && X0[i] == X02[i] && X1[i] == X12[i] && A[i] == A2[i]
induct n
use hitsframe(Y, X0, X1, A, Y2, X02, X12, A2, o, n-1, y, x)
ensures hits(Y,X0,X1,A,o,n,y,x) == hits(Y2,X02,X12,A2,o,n,y,x)

def pend(y int, x0 int, x1 int) int = y == gpy && x0 <= gpx && gpx < x1 ? 1 : 0
pred upto(y1 int, x1 int, y2 int, x2 int) = y1 < y2 || y1 == y2 && x1 <= x2

// Spans [a, b) of the slice, those with pixels, are in painting order and do not overlap.
pred inorder(Y arr, X0 arr, X1 arr, a int, b int) = forall i int, j int {Y[i], Y[j]} :: a <= i && i < j && j < b && X0[i] < X1[i] && X0[j] < X1[j] ==> upto(Y[i], X1[i], Y[j], X0[j])

// What a face's painter needs, and what it leaves alone (proved of it in face.gvc). A painter of
// a user's own is assumed to change no memory that its caller uses.
pred paintready(p raster.Painter) = (istype(p, truetype.facePainter) ==> canpaint(asptr(p, truetype.facePainter).a))
  && (istype(p, raster.AlphaSrcPainter) ==> asptr(p, raster.AlphaSrcPainter).Image != nil && alphaok(asptr(p, raster.AlphaSrcPainter).Image))
  && (istype(p, raster.AlphaOverPainter) ==> asptr(p, raster.AlphaOverPainter).Image != nil && alphaok(asptr(p, raster.AlphaOverPainter).Image))
  && (istype(p, raster.RGBAPainter, ptr) ==> asptr(p, raster.RGBAPainter).Image != nil && rgbaok(asptr(p, raster.RGBAPainter).Image) && premul(asptr(p, raster.RGBAPainter)))
pred paintsorted(p raster.Painter, ss []raster.Span) = istype(p, truetype.facePainter) ==> ysorted(ss) && alphasok(row(ss,Alpha), off(ss), len(ss))
pred alphasok(A arr, o int, n int) = forall i int {A[i]} :: o <= i && i < o+n ==> 0 <= A[i] && A[i] <= 65535
iface raster.Painter.Paint(p, ss, done)
requires paintready(p)
requires[C10 C15 C16 C17 C18 C24] paintsorted(p, ss)
modifies elems(ss), when(istype(p, truetype.facePainter), elems(asptr(p, truetype.facePainter).a.masks.Pix)), when(istype(p, raster.AlphaSrcPainter), elems(asptr(p, raster.AlphaSrcPainter).Image.Pix)), when(istype(p, raster.AlphaOverPainter), elems(asptr(p, raster.AlphaOverPainter).Image.Pix)), when(istype(p, raster.RGBAPainter, ptr), elems(asptr(p, raster.RGBAPainter).Image.Pix))
ensures istype(p, truetype.facePainter) ==> let a = asptr(p, truetype.facePainter).a; slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)

func raster.(*MonochromePainter).Paint(m, ss, done)
props C17
split
allocates
requires m != nil && tag(m.Painter) != 0 && !istype(m.Painter, truetype.facePainter) && paintready(m.Painter)
requires forall i int {row(ss,X0)[i]} :: off(ss) <= i && i < off(ss)+len(ss) ==> row(ss,X0)[i] < row(ss,X1)[i]
requires inorder(row(ss,Y), row(ss,X0), row(ss,X1), off(ss), off(ss)+len(ss))
requires m.x0 <= m.x1
requires len(ss) > 0 && m.x0 < m.x1 ==> upto(m.y, m.x1, ss[0].Y, ss[0].X0)
requires glast && m.x0 < m.x1 ==> upto(glasty, glastx, m.y, m.x0)
requires glast && len(ss) > 0 ==> upto(glasty, glastx, ss[0].Y, ss[0].X0)
modifies m.y, m.x0, m.x1, elems(ss), gcnt, gdone, glast, glasty, glastx, when(istype(m.Painter, truetype.facePainter), elems(asptr(m.Painter, truetype.facePainter).a.masks.Pix)), when(istype(m.Painter, raster.AlphaSrcPainter), elems(asptr(m.Painter, raster.AlphaSrcPainter).Image.Pix)), when(istype(m.Painter, raster.AlphaOverPainter), elems(asptr(m.Painter, raster.AlphaOverPainter).Image.Pix)), when(istype(m.Painter, raster.RGBAPainter, ptr), elems(asptr(m.Painter, raster.RGBAPainter).Image.Pix))
ensures gcnt + pend(m.y, m.x0, m.x1) == old(gcnt + pend(m.y, m.x0, m.x1)) + old(hits(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), len(ss), gpy, gpx))
ensures gdone == old(gdone) + (done ? 1 : 0)
ensures done ==> m.y == 0 && m.x0 == 0 && m.x1 == 0
ensures m.x0 <= m.x1
ensures glast && m.x0 < m.x1 ==> upto(glasty, glastx, m.y, m.x0)
ensures !done && len(ss) > 0 && old(m.x0 < m.x1 ==> upto(m.y, m.x1, ss[0].Y, ss[0].X0)) && m.x0 < m.x1 ==> upto(m.y, m.x1, old(row(ss,Y))[off(ss)+len(ss)-1], old(row(ss,X1))[off(ss)+len(ss)-1]) 
loop 1
invariant 0 <= j && j <= it && (m.x0 < m.x1 || j == 0)
invariant forall i int {row(ss,Y)[i]} {row(ss,X0)[i]} {row(ss,X1)[i]} {row(ss,Alpha)[i]} :: i < off(ss) || off(ss)+j <= i ==> row(ss,Y)[i] == old(row(ss,Y))[i] && row(ss,X0)[i] == old(row(ss,X0))[i] && row(ss,X1)[i] == old(row(ss,X1))[i] && row(ss,Alpha)[i] == old(row(ss,Alpha))[i]
use hitsframe(head(row(ss,Y)), head(row(ss,X0)), head(row(ss,X1)), head(row(ss,Alpha)), row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), head(j), gpy, gpx)
invariant hits(row(ss,Y), row(ss,X0), row(ss,X1), row(ss,Alpha), off(ss), j, gpy, gpx) + pend(m.y, m.x0, m.x1) == old(pend(m.y, m.x0, m.x1)) + hits(old(row(ss,Y)), old(row(ss,X0)), old(row(ss,X1)), old(row(ss,Alpha)), off(ss), it, gpy, gpx)
invariant forall i int {row(ss,Alpha)[i]} :: off(ss) <= i && i < off(ss)+j ==> row(ss,Alpha)[i] == 65535
invariant inorder(row(ss,Y), row(ss,X0), row(ss,X1), off(ss), off(ss)+j)
invariant m.x0 <= m.x1
invariant forall i int {row(ss,Y)[i]} :: off(ss) <= i && i < off(ss)+j && row(ss,X0)[i] < row(ss,X1)[i] && m.x0 < m.x1 ==> upto(row(ss,Y)[i], row(ss,X1)[i], m.y, m.x0)
invariant forall i int {row(ss,Y)[i]} :: off(ss) <= i && i < off(ss)+j && row(ss,X0)[i] < row(ss,X1)[i] && glast ==> upto(glasty, glastx, row(ss,Y)[i], row(ss,X0)[i])
invariant glast && m.x0 < m.x1 ==> upto(glasty, glastx, m.y, m.x0)
invariant forall i int {old(row(ss,Y))[i]} :: off(ss)+it <= i && i < off(ss)+len(ss) && glast ==> upto(glasty, glastx, old(row(ss,Y))[i], old(row(ss,X0))[i])
invariant forall i int {old(row(ss,Y))[i]} :: off(ss)+it <= i && i < off(ss)+len(ss) && m.x0 < m.x1 ==> upto(m.y, m.x1, old(row(ss,Y))[i], old(row(ss,X0))[i])
invariant forall i int {row(ss,X0)[i]} :: off(ss)+1 <= i && i < off(ss)+j ==> row(ss,X0)[i] < row(ss,X1)[i]
invariant it > 0 && m.x0 < m.x1 ==> upto(m.y, m.x1, old(row(ss,Y))[off(ss)+it-1], old(row(ss,X1))[off(ss)+it-1])
oncall raster.Painter.Paint(p, sp, d)
use hitsframe(athead(1, row(ss,Y)), athead(1, row(ss,X0)), athead(1, row(ss,X1)), athead(1, row(ss,Alpha)), row(sp,Y), row(sp,X0), row(sp,X1), row(sp,Alpha), off(sp), athead(1, j), gpy, gpx)
requires gdone == old(gdone)
requires forall i int {row(sp,Y)[i]} :: off(sp) <= i && i < off(sp)+len(sp) && row(sp,X0)[i] < row(sp,X1)[i] ==> sp[len(sp)-1].X0 < sp[len(sp)-1].X1
requires forall i int {row(sp,Alpha)[i]} :: off(sp) <= i && i < off(sp)+len(sp) ==> row(sp,Alpha)[i] == 65535
requires inorder(row(sp,Y), row(sp,X0), row(sp,X1), off(sp), off(sp)+len(sp))
requires forall i int {row(sp,Y)[i]} :: off(sp) <= i && i < off(sp)+len(sp) && row(sp,X0)[i] < row(sp,X1)[i] && glast ==> upto(glasty, glastx, row(sp,Y)[i], row(sp,X0)[i])
set gcnt = gcnt + pre(hits(row(sp,Y), row(sp,X0), row(sp,X1), row(sp,Alpha), off(sp), len(sp), gpy, gpx))
set glast = d ? false : (pre(len(sp) > 0 && sp[len(sp)-1].X0 < sp[len(sp)-1].X1) ? true : glast)
set glasty = pre(len(sp) > 0 && sp[len(sp)-1].X0 < sp[len(sp)-1].X1) ? pre(sp[len(sp)-1].Y) : glasty
set glastx = pre(len(sp) > 0 && sp[len(sp)-1].X0 < sp[len(sp)-1].X1) ? pre(sp[len(sp)-1].X1) : glastx
set gdone = gdone + (d ? 1 : 0)

func raster.NewMonochromePainter(p) (m)
props C17
allocates
nilable p
ensures m != nil && m.Painter == p && m.y == 0 && m.x0 == 0 && m.x1 == 0

// ---- C18
ghost gpaints int

// Linear interpolation between entries p and p+1 of the table, to the nearest.
def gammaof(T arr, a int) int = a == 0 || a == 65535 ? a : div(T[div(a,257)]*(257-mod(a,257)) + T[div(a,257)+1]*mod(a,257) + 128, 257)

lemma interp(s int, t int, q int)
requires 0 <= s && s <= 65535 && 0 <= t && t <= 65535 && 0 <= q && q <= 256
ensures 0 <= s*(257-q) && s*(257-q) <= 65535*(257-q) && 0 <= t*q && t*q <= 65535*q

func raster.(*GammaCorrectionPainter).Paint(g, ss, done)
props C18
requires g != nil && tag(g.Painter) != 0 && !istype(g.Painter, truetype.facePainter) && paintready(g.Painter)
requires forall i int {row(ss,Alpha)[i]} :: off(ss) <= i && i < off(ss)+len(ss) ==> row(ss,Alpha)[i] <= 65535
modifies elems(ss), gpaints, when(istype(g.Painter, truetype.facePainter), elems(asptr(g.Painter, truetype.facePainter).a.masks.Pix)), when(istype(g.Painter, raster.AlphaSrcPainter), elems(asptr(g.Painter, raster.AlphaSrcPainter).Image.Pix)), when(istype(g.Painter, raster.AlphaOverPainter), elems(asptr(g.Painter, raster.AlphaOverPainter).Image.Pix)), when(istype(g.Painter, raster.RGBAPainter, ptr), elems(asptr(g.Painter, raster.RGBAPainter).Image.Pix))
ensures gpaints == old(gpaints) + 1
loop 1
use interp(g.a[div(row(ss,Alpha)[off(ss)+it],257)], g.a[div(row(ss,Alpha)[off(ss)+it],257)+1], mod(row(ss,Alpha)[off(ss)+it],257)) at head
invariant row(ss,Y) == old(row(ss,Y)) && row(ss,X0) == old(row(ss,X0)) && row(ss,X1) == old(row(ss,X1))
invariant forall i int {row(ss,Alpha)[i]} :: row(ss,Alpha)[i] == (off(ss) <= i && i < off(ss)+it ? gammaof(row(g.a), old(row(ss,Alpha))[i]) : old(row(ss,Alpha))[i])
invariant forall i int {row(ss,Alpha)[i]} :: off(ss) <= i && i < off(ss)+it ==> row(ss,Alpha)[i] <= 65535
oncall raster.Painter.Paint(p, sp, d)
requires gpaints == old(gpaints) && p == g.Painter
requires d == done && ref(sp) == ref(ss) && off(sp) == off(ss) && len(sp) == len(ss)
requires row(sp,Y) == old(row(ss,Y)) && row(sp,X0) == old(row(ss,X0)) && row(sp,X1) == old(row(ss,X1))
requires forall i int {row(sp,Alpha)[i]} :: off(sp) <= i && i < off(sp)+len(sp) ==> row(sp,Alpha)[i] <= 65535
requires forall i int {row(sp,Alpha)[i]} :: off(sp) <= i && i < off(sp)+len(sp) ==> row(sp,Alpha)[i] == (g.gammaIsOne ? old(row(ss,Alpha))[i] : gammaof(row(g.a), old(row(ss,Alpha))[i]))
set gpaints = gpaints + 1

extern math.Pow(x, y) (z)
ensures z == f2(u_pow, x, y)

// The table: entry i is (i/255)^gamma of full opacity.
func raster.(*GammaCorrectionPainter).SetGamma(g, gamma)
props C18
requires g != nil
modifies g.gammaIsOne, elems(g.a)

ensures !g.gammaIsOne ==> forall i int {row(g.a)[i]} :: 0 <= i && i < 256 ==> row(g.a)[i] == gammatab(i, gamma)
ensures g.gammaIsOne ==> row(g.a) == old(row(g.a))
ensures g.gammaIsOne <==> feq(gamma, fconst(1))
loop 1
invariant 0 <= i && i <= 256
invariant forall k int {row(g.a)[k]} :: 0 <= k && k < i ==> row(g.a)[k] == gammatab(k, gamma)
decreases 256 - i

def gammatab(i int, gamma float64) int = f2iu16(f2(fmul, fconst(65535), f2(u_pow, f2(fdivide, i2f(i), fconst(255)), gamma)))

func raster.NewGammaCorrectionPainter(p, gamma) (g)
props C18
nilable p
allocates
ensures g != nil && fresh(g) && g.Painter == p
ensures !g.gammaIsOne ==> forall i int {row(g.a)[i]} :: 0 <= i && i < 256 ==> row(g.a)[i] == gammatab(i, gamma)
ensures g.gammaIsOne <==> feq(gamma, fconst(1))
