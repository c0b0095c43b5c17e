// Contracts for raster/geom.go: recorded paths (C19).

// pathback: the n values up to o+n are those of whole starts and segments, read from the end.
spec pathback(P arr, o int, n int) bool = n <= 0 ? n == 0
  : (P[o+n-1] == 0 || P[o+n-1] == 1 ? n >= 4 && P[o+n-4] == P[o+n-1] && pathback(P, o, n-4)
  : (P[o+n-1] == 2 ? n >= 6 && P[o+n-6] == 2 && pathback(P, o, n-6)
  : P[o+n-1] == 3 && n >= 8 && P[o+n-8] == 3 && pathback(P, o, n-8)))
// curve: they are those of one start and then segments
spec curve(P arr, o int, n int) bool = n <= 4 ? n == 4 && P[o] == 0 && P[o+3] == 0
  : (P[o+n-1] == 1 ? n >= 8 && P[o+n-4] == 1 && curve(P, o, n-4)
  : (P[o+n-1] == 2 ? n >= 10 && P[o+n-6] == 2 && curve(P, o, n-6)
  : P[o+n-1] == 3 && n >= 12 && P[o+n-8] == 3 && curve(P, o, n-8)))

lemma pathmoved(P arr, o int, Q arr, u int, n int)
requires forall k int {P[k]} :: o <= k && k < o+n ==> Q[k-o+u] == P[k]
induct n
use pathmoved(P, o, Q, u, n-4)
use pathmoved(P, o, Q, u, n-6)
use pathmoved(P, o, Q, u, n-8)
ensures pathback(P, o, n) ==> pathback(Q, u, n)

lemma curvemoved(P arr, o int, Q arr, u int, n int)
requires forall k int {P[k]} :: o <= k && k < o+n ==> Q[k-o+u] == P[k]
induct n
use curvemoved(P, o, Q, u, n-4)
use curvemoved(P, o, Q, u, n-6)
use curvemoved(P, o, Q, u, n-8)
ensures curve(P, o, n) ==> curve(Q, u, n)

lemma curveispath(P arr, o int, n int)
induct n
use curveispath(P, o, n-4)
use curveispath(P, o, n-6)
use curveispath(P, o, n-8)
use unfold(pathback(P, o, 4), 3)
ensures curve(P, o, n) ==> pathback(P, o, n) && n >= 4

// two paths, one after the other
lemma pathjoin(P arr, o int, n int, m int)
requires pathback(P, o, n) && n >= 0
induct m
use pathjoin(P, o, n, m-4)
use pathjoin(P, o, n, m-6)
use pathjoin(P, o, n, m-8)
ensures pathback(P, o+n, m) ==> pathback(P, o, n+m)

// read from the start
lemma pathsnoc(P arr, i int, n int, k int)
requires k == (P[i+n] == 2 ? 6 : (P[i+n] == 3 ? 8 : 4)) && 0 <= P[i+n] && P[i+n] <= 3 && P[i+n+k-1] == P[i+n]
induct n
use pathsnoc(P, i+4, n-4, k)
use pathsnoc(P, i+6, n-6, k)
use pathsnoc(P, i+8, n-8, k)
use unfold(wfat(P, i+n, k), 3)
use unfold(wfat(P, i, n+k), 2)
use unfold(wfat(P, i, k), 3)
ensures n >= 0 && wfat(P, i, n) ==> wfat(P, i, n+k)

lemma pathforth(P arr, o int, n int)
induct n
use pathforth(P, o, n-4)
use pathforth(P, o, n-6)
use pathforth(P, o, n-8)
use pathsnoc(P, o, n-4, 4)
use pathsnoc(P, o, n-6, 6)
use pathsnoc(P, o, n-8, 8)
ensures pathback(P, o, n) ==> wfat(P, o, n)

pred goodpath(p raster.Path) = pathback(row(p), off(p), len(p))
pred onecurve(p raster.Path) = curve(row(p), off(p), len(p))
// after p was q, then n values were appended: what was there is unchanged
pred grown(p raster.Path, Q arr, o int, n int) = forall k int {Q[k]} :: o <= k && k < o+n ==> row(p)[k-o+off(p)] == Q[k]

func raster.(*Path).Clear(p)
props C19
modifies deref(p)
ensures len(deref(p)) == 0 && goodpath(deref(p))

func raster.(*Path).Start(p, a)
props C19
allocates
modifies deref(p), elems(deref(p))
ensures len(deref(p)) == old(len(deref(p))) + 4
ensures ref(deref(p)) == old(ref(deref(p))) && off(deref(p)) == old(off(deref(p))) || fresh(deref(p))
ensures grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures let e = off(deref(p)) + old(len(deref(p))); row(deref(p))[e] == 0 && row(deref(p))[e+1] == a.X && row(deref(p))[e+2] == a.Y && row(deref(p))[e+3] == 0
use pathmoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
ensures old(goodpath(deref(p))) ==> goodpath(deref(p))
use unfold(curve(row(deref(p)), off(deref(p)), 4), 2)
ensures old(len(deref(p))) == 0 ==> onecurve(deref(p))

func raster.(*Path).Add1(p, b)
props C19
allocates
modifies deref(p), elems(deref(p))
ensures len(deref(p)) == old(len(deref(p))) + 4
ensures ref(deref(p)) == old(ref(deref(p))) && off(deref(p)) == old(off(deref(p))) || fresh(deref(p))
ensures grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures let e = off(deref(p)) + old(len(deref(p))); row(deref(p))[e] == 1 && row(deref(p))[e+1] == b.X && row(deref(p))[e+2] == b.Y && row(deref(p))[e+3] == 1
use pathmoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curvemoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curveispath(old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures old(goodpath(deref(p))) ==> goodpath(deref(p))
ensures old(onecurve(deref(p))) ==> onecurve(deref(p))

func raster.(*Path).Add2(p, b, c)
props C19
allocates
modifies deref(p), elems(deref(p))
ensures len(deref(p)) == old(len(deref(p))) + 6
ensures ref(deref(p)) == old(ref(deref(p))) && off(deref(p)) == old(off(deref(p))) || fresh(deref(p))
ensures grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures let e = off(deref(p)) + old(len(deref(p))); row(deref(p))[e] == 2 && row(deref(p))[e+1] == b.X && row(deref(p))[e+2] == b.Y && row(deref(p))[e+3] == c.X && row(deref(p))[e+4] == c.Y && row(deref(p))[e+5] == 2
use pathmoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curvemoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curveispath(old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures old(goodpath(deref(p))) ==> goodpath(deref(p))
ensures old(onecurve(deref(p))) ==> onecurve(deref(p))

func raster.(*Path).Add3(p, b, c, d)
props C19
allocates
modifies deref(p), elems(deref(p))
ensures len(deref(p)) == old(len(deref(p))) + 8
ensures ref(deref(p)) == old(ref(deref(p))) && off(deref(p)) == old(off(deref(p))) || fresh(deref(p))
ensures grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures let e = off(deref(p)) + old(len(deref(p))); row(deref(p))[e] == 3 && row(deref(p))[e+1] == b.X && row(deref(p))[e+2] == b.Y && row(deref(p))[e+3] == c.X && row(deref(p))[e+4] == c.Y && row(deref(p))[e+5] == d.X && row(deref(p))[e+6] == d.Y && row(deref(p))[e+7] == 3
use pathmoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curvemoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use curveispath(old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures old(goodpath(deref(p))) ==> goodpath(deref(p))
ensures old(onecurve(deref(p))) ==> onecurve(deref(p))

// the path q may share its memory with p, as far as it lies within p
func raster.(*Path).AddPath(p, q)
props C19
allocates
modifies deref(p), elems(deref(p))
ensures len(deref(p)) == old(len(deref(p))) + len(q)
ensures ref(deref(p)) == old(ref(deref(p))) && off(deref(p)) == old(off(deref(p))) || fresh(deref(p))
ensures grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures forall k int {old(row(q))[k]} :: off(q) <= k && k < off(q) + len(q) ==> row(deref(p))[k - off(q) + off(deref(p)) + old(len(deref(p)))] == old(row(q))[k]
use pathmoved(old(row(deref(p))), old(off(deref(p))), row(deref(p)), off(deref(p)), old(len(deref(p))))
use pathmoved(old(row(q)), off(q), row(deref(p)), off(deref(p)) + old(len(deref(p))), len(q))
use pathjoin(row(deref(p)), off(deref(p)), old(len(deref(p))), len(q))
ensures old(goodpath(deref(p))) && old(goodpath(q)) ==> goodpath(deref(p))

extern fmt.Sprint(a) (s)
ensures len(s) >= 0

func raster.Path.String(p) (s)
props C19
allocates
requires goodpath(p)
use pathforth(row(p), off(p), len(p)) at entry
loop 1
invariant 0 <= i && i <= len(p) && wfat(row(p), off(p)+i, len(p)-i)
decreases len(p) - i

func raster.Path.firstPoint(p) (q)
props C19 C20
requires len(p) >= 3
ensures q.X == row(p)[off(p)+1] && q.Y == row(p)[off(p)+2]

func raster.Path.lastPoint(p) (q)
props C19 C20
requires len(p) >= 3
ensures q.X == row(p)[off(p)+len(p)-3] && q.Y == row(p)[off(p)+len(p)-2]

// ---- what an Adder does. gout is any Adder; gstarts counts the starts it was given, gsx, gsy is where
// the last one was, and gpx1, gpy1 the last point it was given. An Adder that is a *Path records the call;
// any other one changes no memory that the callers here use.
ghost gout int
ghost gstarts int
ghost gsx int
ghost gsy int
ghost gendx int
ghost gendy int
pred isout(p raster.Adder) = ref(p) == gout

pred recorded(p raster.Path, Q arr, o int, n int, q raster.Path) = (ref(p) == ref(q) && off(p) == off(q) || fresh(p)) && grown(p, Q, o, n)

iface raster.Adder.Start(p, a)
allocates
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gstarts, gsx, gsy, gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) == old(len(q)) + 4 && (old(goodpath(q)) ==> goodpath(q)) && (old(len(q)) == 0 ==> onecurve(q))
ensures let q = deref(asptr(p, raster.Path)); row(q)[off(q)+old(len(q))+1] == a.X && row(q)[off(q)+old(len(q))+2] == a.Y
ensures gstarts == old(gstarts) + (isout(p) ? 1 : 0) && (isout(p) ? gsx == a.X && gsy == a.Y && gendx == a.X && gendy == a.Y : gsx == old(gsx) && gsy == old(gsy) && gendx == old(gendx) && gendy == old(gendy))

iface raster.Adder.Add1(p, b)
allocates
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) == old(len(q)) + 4 && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == b.X && gendy == b.Y : gendx == old(gendx) && gendy == old(gendy)

iface raster.Adder.Add2(p, b, c)
allocates
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) == old(len(q)) + 6 && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == c.X && gendy == c.Y : gendx == old(gendx) && gendy == old(gendy)

iface raster.Adder.Add3(p, b, c, d)
allocates
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) == old(len(q)) + 8 && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == d.X && gendy == d.Y : gendx == old(gendx) && gendy == old(gendy)

// ---- a curve, backwards: gback goes down by the length of each segment added: the part of q up to there is not added yet
ghost gback int
lemma curvepoint(P arr, o int, n int)
use unfold(curve(P, o, n), 2)
ensures curve(P, o, n) ==> n >= 4 && 0 <= P[o+n-1] && P[o+n-1] <= 3 && (P[o+n-1] == 0 ==> n == 4)
ensures curve(P, o, n) && P[o+n-1] == 1 ==> n >= 8 && curve(P, o, n-4)
ensures curve(P, o, n) && P[o+n-1] == 2 ==> n >= 10 && curve(P, o, n-6)
ensures curve(P, o, n) && P[o+n-1] == 3 ==> n >= 12 && curve(P, o, n-8)

pred adderok(p raster.Adder) = tag(p) != 0
pred apart(p raster.Adder, q raster.Path) = ref(deref(asptr(p, raster.Path))) != ref(q)

func raster.addPathReversed(p, q)
props C19 C20
allocates
requires adderok(p) && (len(q) == 0 || onecurve(q) && apart(p, q))
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy, gback
ensures let r = deref(asptr(p, raster.Path)); recorded(r, old(row(r)), old(off(r)), old(len(r)), old(r)) && len(r) >= old(len(r)) && (old(goodpath(r)) ==> goodpath(r)) && (old(onecurve(r)) ==> onecurve(r))
ensures len(q) > 0 ==> gback == old(gback) - len(q) + 4
ensures len(q) > 4 && isout(p) ==> gendx == row(q)[off(q)+1] && gendy == row(q)[off(q)+2]
ensures !(len(q) > 4 && isout(p)) ==> gendx == old(gendx) && gendy == old(gendy)
use curvepoint(row(q), off(q), i+1)
loop 1
invariant 0 <= i && i < len(q) && gback == old(gback) - len(q) + i + 1 && curve(row(q), off(q), i+1)
invariant row(q) == old(row(q)) && apart(p, q)
invariant let r = deref(asptr(p, raster.Path)); recorded(r, old(row(r)), old(off(r)), old(len(r)), old(r)) && len(r) >= old(len(r)) && (old(goodpath(r)) ==> goodpath(r)) && (old(onecurve(r)) ==> onecurve(r))
invariant i < len(q) - 1 && isout(p) ? gendx == row(q)[gback-old(gback)+off(q)+len(q)-3] && gendy == row(q)[gback-old(gback)+off(q)+len(q)-2] : gendx == old(gendx) && gendy == old(gendy)
decreases i
use curvepoint(row(q), off(q), i+1) at head
oncall raster.Adder.Add1(p1, b)
requires p1 == p && row(q)[gback-old(gback)+off(q)+len(q)-1] == 1
requires b.X == row(q)[gback-old(gback)+off(q)+len(q)-7] && b.Y == row(q)[gback-old(gback)+off(q)+len(q)-6]
set gback = gback - 4
oncall raster.Adder.Add2(p1, b, c)
requires p1 == p && row(q)[gback-old(gback)+off(q)+len(q)-1] == 2
requires b.X == row(q)[gback-old(gback)+off(q)+len(q)-5] && b.Y == row(q)[gback-old(gback)+off(q)+len(q)-4] && c.X == row(q)[gback-old(gback)+off(q)+len(q)-9] && c.Y == row(q)[gback-old(gback)+off(q)+len(q)-8]
set gback = gback - 6
oncall raster.Adder.Add3(p1, b, c, d)
requires p1 == p && row(q)[gback-old(gback)+off(q)+len(q)-1] == 3
requires b.X == row(q)[gback-old(gback)+off(q)+len(q)-5] && b.Y == row(q)[gback-old(gback)+off(q)+len(q)-4] && c.X == row(q)[gback-old(gback)+off(q)+len(q)-7] && c.Y == row(q)[gback-old(gback)+off(q)+len(q)-6] && d.X == row(q)[gback-old(gback)+off(q)+len(q)-11] && d.Y == row(q)[gback-old(gback)+off(q)+len(q)-10]
set gback = gback - 8
