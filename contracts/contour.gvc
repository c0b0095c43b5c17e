// Contracts for drawing a contour: truetype/face.go and freetype.go.

// ---- C21: a contour of n points at o, F their flags
// gpt is the first point not drawn yet; gcurves and gcloses count the curves started and closed.
ghost gpt int
ghost gcurves int
ghost gcloses int
pred onc(F arr, k int) = mod(F[k], 2) == 1
def midway(a int, b int) int = tdiv(int32(a + b), 2)
// Where it starts: at the first point if that is on the curve, or the last, or midway between them.
// The points from cfirst on, before clast, are those to draw after that.
def cfirst(F arr, o int) int = onc(F, o) ? o + 1 : o
def clast(F arr, o int, n int) int = !onc(F, o) && onc(F, o+n-1) ? o + n - 1 : o + n
def startx(F arr, X arr, o int, n int, dx int) int = onc(F, o) ? int32(dx + X[o]) : (onc(F, o+n-1) ? int32(dx + X[o+n-1]) : midway(int32(dx + X[o]), int32(dx + X[o+n-1])))
def starty(F arr, Y arr, o int, n int, dy int) int = onc(F, o) ? int32(dy - Y[o]) : (onc(F, o+n-1) ? int32(dy - Y[o+n-1]) : midway(int32(dy - Y[o]), int32(dy - Y[o+n-1])))

func truetype.(*face).drawContour(a, ps, dx, dy)
props C21 C24
allocates
requires a != nil && cellsok(addr(a.r)) && scaleok(addr(a.r))
modifies a.r.cell, elems(a.r.cell), elems(a.r.cellIndex), a.r.area, a.r.cover, a.r.xi, a.r.yi, a.r.a, cellrow, gc, gcurves, gpt, gcloses
ensures ref(a.r.cell) == old(ref(a.r.cell)) || fresh(a.r.cell)
ensures cellsok(addr(a.r))
ensures[C21] gcurves == old(gcurves) + (len(ps) > 0 ? 1 : 0) && gcloses == old(gcloses) + (len(ps) > 0 ? 1 : 0)
ensures[C21] len(ps) > 0 ==> gpt == clast(row(ps,Flags), off(ps), len(ps))
loop 1
invariant ref(a.r.cell) == old(ref(a.r.cell)) || fresh(a.r.cell)
invariant cellsok(addr(a.r))
invariant[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses)
invariant[C21] ref(others) == ref(ps) && off(others) == cfirst(row(ps,Flags), off(ps)) && off(others) + len(others) == clast(row(ps,Flags), off(ps), len(ps))
invariant[C21] start.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && start.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
invariant[C21] on0 ? gpt == off(others) + it : it > 0 && gpt == off(others) + it - 1 && !onc(row(ps,Flags), gpt) && q0.X == int32(dx + row(ps,X)[gpt]) && q0.Y == int32(dy - row(ps,Y)[gpt])
oncall raster.(*Rasterizer).Start(r1, p)
requires[C21] gcurves == old(gcurves) && ref(r1) == ref(addr(a.r))
requires[C21] p.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && p.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
set gcurves = gcurves + 1
set gpt = cfirst(row(ps,Flags), off(ps))
oncall raster.(*Rasterizer).Add1(r1, p)
requires[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses) && ref(r1) == ref(addr(a.r))
requires[C21] gpt == clast(row(ps,Flags), off(ps), len(ps)) ? p.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && p.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
  : onc(row(ps,Flags), gpt) && p.X == int32(dx + row(ps,X)[gpt]) && p.Y == int32(dy - row(ps,Y)[gpt])
set gcloses = gcloses + (gpt == clast(row(ps,Flags), off(ps), len(ps)) ? 1 : 0)
set gpt = min(gpt + 1, clast(row(ps,Flags), off(ps), len(ps)))
oncall raster.(*Rasterizer).Add2(r1, b, c)
requires[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses) && ref(r1) == ref(addr(a.r))
requires[C21] gpt < clast(row(ps,Flags), off(ps), len(ps)) && !onc(row(ps,Flags), gpt) && b.X == int32(dx + row(ps,X)[gpt]) && b.Y == int32(dy - row(ps,Y)[gpt])
requires[C21] gpt + 1 == clast(row(ps,Flags), off(ps), len(ps)) ? c.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && c.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
  : (onc(row(ps,Flags), gpt+1) ? c.X == int32(dx + row(ps,X)[gpt+1]) && c.Y == int32(dy - row(ps,Y)[gpt+1])
  : c.X == midway(int32(dx + row(ps,X)[gpt]), int32(dx + row(ps,X)[gpt+1])) && c.Y == midway(int32(dy - row(ps,Y)[gpt]), int32(dy - row(ps,Y)[gpt+1])))
set gcloses = gcloses + (gpt + 1 == clast(row(ps,Flags), off(ps), len(ps)) ? 1 : 0)
set gpt = gpt + (gpt + 1 < clast(row(ps,Flags), off(ps), len(ps)) && onc(row(ps,Flags), gpt+1) ? 2 : 1)
oncall raster.(*Rasterizer).Add3(r1, b, c, d)
requires[C21] false
oncall raster.(*Rasterizer).AddPath(r1, p)
requires[C21] false
oncall raster.(*Rasterizer).Clear(r1)
requires[C21] false
oncall raster.(*Rasterizer).SetBounds(r1, w, h)
requires[C21] false
oncall raster.(*Rasterizer).Rasterize(r1, p)
requires[C21] false

func freetype.(*Context).drawContour(a, ps, dx, dy)
props C21 C23
allocates
requires a != nil && a.r != nil && cellsok(a.r) && scaleok(a.r)
modifies a.r.cell, elems(a.r.cell), elems(a.r.cellIndex), a.r.area, a.r.cover, a.r.xi, a.r.yi, a.r.a, cellrow, gc, gcurves, gpt, gcloses
ensures ref(a.r.cell) == old(ref(a.r.cell)) || fresh(a.r.cell)
ensures cellsok(a.r)
ensures[C21] gcurves == old(gcurves) + (len(ps) > 0 ? 1 : 0) && gcloses == old(gcloses) + (len(ps) > 0 ? 1 : 0)
ensures[C21] len(ps) > 0 ==> gpt == clast(row(ps,Flags), off(ps), len(ps))
loop 1
invariant ref(a.r.cell) == old(ref(a.r.cell)) || fresh(a.r.cell)
invariant cellsok(a.r)
invariant[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses)
invariant[C21] ref(others) == ref(ps) && off(others) == cfirst(row(ps,Flags), off(ps)) && off(others) + len(others) == clast(row(ps,Flags), off(ps), len(ps))
invariant[C21] start.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && start.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
invariant[C21] on0 ? gpt == off(others) + it : it > 0 && gpt == off(others) + it - 1 && !onc(row(ps,Flags), gpt) && q0.X == int32(dx + row(ps,X)[gpt]) && q0.Y == int32(dy - row(ps,Y)[gpt])
oncall raster.(*Rasterizer).Start(r1, p)
requires[C21] gcurves == old(gcurves) && ref(r1) == ref(a.r)
requires[C21] p.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && p.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
set gcurves = gcurves + 1
set gpt = cfirst(row(ps,Flags), off(ps))
oncall raster.(*Rasterizer).Add1(r1, p)
requires[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses) && ref(r1) == ref(a.r)
requires[C21] gpt == clast(row(ps,Flags), off(ps), len(ps)) ? p.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && p.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
  : onc(row(ps,Flags), gpt) && p.X == int32(dx + row(ps,X)[gpt]) && p.Y == int32(dy - row(ps,Y)[gpt])
set gcloses = gcloses + (gpt == clast(row(ps,Flags), off(ps), len(ps)) ? 1 : 0)
set gpt = min(gpt + 1, clast(row(ps,Flags), off(ps), len(ps)))
oncall raster.(*Rasterizer).Add2(r1, b, c)
requires[C21] gcurves == old(gcurves) + 1 && gcloses == old(gcloses) && ref(r1) == ref(a.r)
requires[C21] gpt < clast(row(ps,Flags), off(ps), len(ps)) && !onc(row(ps,Flags), gpt) && b.X == int32(dx + row(ps,X)[gpt]) && b.Y == int32(dy - row(ps,Y)[gpt])
requires[C21] gpt + 1 == clast(row(ps,Flags), off(ps), len(ps)) ? c.X == startx(row(ps,Flags), row(ps,X), off(ps), len(ps), dx) && c.Y == starty(row(ps,Flags), row(ps,Y), off(ps), len(ps), dy)
  : (onc(row(ps,Flags), gpt+1) ? c.X == int32(dx + row(ps,X)[gpt+1]) && c.Y == int32(dy - row(ps,Y)[gpt+1])
  : c.X == midway(int32(dx + row(ps,X)[gpt]), int32(dx + row(ps,X)[gpt+1])) && c.Y == midway(int32(dy - row(ps,Y)[gpt]), int32(dy - row(ps,Y)[gpt+1])))
set gcloses = gcloses + (gpt + 1 == clast(row(ps,Flags), off(ps), len(ps)) ? 1 : 0)
set gpt = gpt + (gpt + 1 < clast(row(ps,Flags), off(ps), len(ps)) && onc(row(ps,Flags), gpt+1) ? 2 : 1)
oncall raster.(*Rasterizer).Add3(r1, b, c, d)
requires[C21] false
oncall raster.(*Rasterizer).AddPath(r1, p)
requires[C21] false
oncall raster.(*Rasterizer).Clear(r1)
requires[C21] false
oncall raster.(*Rasterizer).SetBounds(r1, w, h)
requires[C21] false
oncall raster.(*Rasterizer).Rasterize(r1, p)
requires[C21] false
