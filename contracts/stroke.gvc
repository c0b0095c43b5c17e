// Contracts for raster/stroke.go (C20). An Adder passed to Stroke is not the stroker's own.

extern math.Sqrt(x) (y)

func raster.pLen(p) (d)
props C20
pure

func raster.pNorm(p, length) (q)
props C20
pure

func raster.pDot(p, q) (d)
props C20
pure

func raster.curviest2(a, b, c) (t)
props C20
pure

// ---- what the built-in cappers and joiners do. A cap ends at the point pivot plus normal.
iface raster.Capper.Cap(cr, p, hw, pivot, n1)
allocates
requires adderok(p)
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == int32(pivot.X + n1.X) && gendy == int32(pivot.Y + n1.Y) : gendx == old(gendx) && gendy == old(gendy)

func raster.roundCapper(p, hw, pivot, n1)
props C20
allocates
requires adderok(p)
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == int32(pivot.X + n1.X) && gendy == int32(pivot.Y + n1.Y) : gendx == old(gendx) && gendy == old(gendy)

func raster.buttCapper(p, hw, pivot, n1)
props C20
allocates
requires adderok(p)
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == int32(pivot.X + n1.X) && gendy == int32(pivot.Y + n1.Y) : gendx == old(gendx) && gendy == old(gendy)

func raster.squareCapper(p, hw, pivot, n1)
props C20
allocates
requires adderok(p)
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures isout(p) ? gendx == int32(pivot.X + n1.X) && gendy == int32(pivot.Y + n1.Y) : gendx == old(gendx) && gendy == old(gendy)

pred twosides(l raster.Adder, r raster.Adder) = adderok(l) && adderok(r) && ref(l) != ref(r) && ref(deref(asptr(l, raster.Path))) != ref(deref(asptr(r, raster.Path)))

iface raster.Joiner.Join(jr, lhs, rhs, hw, pivot, n0, n1)
allocates
requires twosides(lhs, rhs)
modifies deref(asptr(lhs, raster.Path)), elems(deref(asptr(lhs, raster.Path))), deref(asptr(rhs, raster.Path)), elems(deref(asptr(rhs, raster.Path))), gendx, gendy
ensures twosides(lhs, rhs)
ensures let q = deref(asptr(lhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures let q = deref(asptr(rhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))

func raster.roundJoiner(lhs, rhs, hw, pivot, n0, n1)
props C20
allocates
requires twosides(lhs, rhs)
modifies deref(asptr(lhs, raster.Path)), elems(deref(asptr(lhs, raster.Path))), deref(asptr(rhs, raster.Path)), elems(deref(asptr(rhs, raster.Path))), gendx, gendy
ensures twosides(lhs, rhs)
ensures let q = deref(asptr(lhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures let q = deref(asptr(rhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))

func raster.bevelJoiner(lhs, rhs, hw, pivot, n0, n1)
props C20
allocates
requires twosides(lhs, rhs)
modifies deref(asptr(lhs, raster.Path)), elems(deref(asptr(lhs, raster.Path))), deref(asptr(rhs, raster.Path)), elems(deref(asptr(rhs, raster.Path))), gendx, gendy
ensures twosides(lhs, rhs)
ensures let q = deref(asptr(lhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures let q = deref(asptr(rhs, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))

func raster.addArc(p, pivot, n0, n1)
props C20
split
allocates
requires adderok(p)
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy
ensures let q = deref(asptr(p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) + 4 && (old(goodpath(q)) ==> goodpath(q)) && (old(onecurve(q)) ==> onecurve(q))
ensures !isout(p) ==> gendx == old(gendx) && gendy == old(gendy)
ensures isout(p) ==> gendx == int32(pivot.X + n1.X) && gendy == int32(pivot.Y + n1.Y)

// ---- the stroker
pred strokerok(k *raster.stroker) = adderok(k.p) && tag(k.cr) != 0 && tag(k.jr) != 0 && isout(k.p) && apart(k.p, k.r) && ref(addr(k.r)) != ref(k.p) && (len(k.r) == 0 || onecurve(k.r))

def work(d int) int = d <= 0 ? 63 : (d == 1 ? 31 : (d == 2 ? 15 : (d == 3 ? 7 : (d == 4 ? 3 : 1))))
def allwork(D arr, t int) int = work(D[0]) + (t >= 1 ? work(D[1]) : 0) + (t >= 2 ? work(D[2]) : 0) + (t >= 3 ? work(D[3]) : 0) + (t >= 4 ? work(D[4]) : 0) + (t >= 5 ? work(D[5]) : 0)

func raster.(*stroker).addNonCurvy2(k, b, c)
props C20
allocates
requires strokerok(k) && len(k.r) > 0
modifies k.a, k.anorm, k.r, elems(k.r), deref(asptr(k.p, raster.Path)), elems(deref(asptr(k.p, raster.Path))), gendx, gendy
ensures strokerok(k)
ensures len(k.r) >= old(len(k.r)) && onecurve(k.r) && (ref(k.r) == old(ref(k.r)) && off(k.r) == old(off(k.r)) || fresh(k.r)) && (old(len(k.r)) > 0 ==> row(k.r)[off(k.r)+1] == old(row(k.r)[off(k.r)+1]) && row(k.r)[off(k.r)+2] == old(row(k.r)[off(k.r)+2]))
ensures let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
ensures len(k.r) > old(len(k.r))
loop 1
invariant 0 <= t && t <= 5
invariant forall j int {ds[j]} :: 0 <= j && j <= t ==> (j < t ? j + 1 : j) <= ds[j] && ds[j] <= 5
invariant strokerok(k) && len(k.r) > 0
invariant k.p == old(k.p)
invariant len(k.r) >= old(len(k.r)) && (ref(k.r) == old(ref(k.r)) && off(k.r) == old(off(k.r)) || fresh(k.r)) && (old(len(k.r)) > 0 ==> row(k.r)[off(k.r)+1] == old(row(k.r)[off(k.r)+1]) && row(k.r)[off(k.r)+2] == old(row(k.r)[off(k.r)+2]))
invariant let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
decreases allwork(row(ds), t)


func raster.(*stroker).Add1(k, b)
props C20
split
allocates
requires strokerok(k)
modifies k.a, k.anorm, k.r, elems(k.r), deref(asptr(k.p, raster.Path)), elems(deref(asptr(k.p, raster.Path))), gendx, gendy, gstarts, gsx, gsy
ensures strokerok(k)
ensures len(k.r) >= old(len(k.r)) && onecurve(k.r) && (ref(k.r) == old(ref(k.r)) && off(k.r) == old(off(k.r)) || fresh(k.r)) && (old(len(k.r)) > 0 ==> row(k.r)[off(k.r)+1] == old(row(k.r)[off(k.r)+1]) && row(k.r)[off(k.r)+2] == old(row(k.r)[off(k.r)+2]))
ensures let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
ensures old(len(k.r)) > 0 ==> gstarts == old(gstarts) && gsx == old(gsx) && gsy == old(gsy)
ensures old(len(k.r)) == 0 ==> gstarts == old(gstarts) + 1 && gsx == int32(2*old(k.a.X) - row(k.r)[off(k.r)+1]) && gsy == int32(2*old(k.a.Y) - row(k.r)[off(k.r)+2])
use curveispath(old(row(k.r)), old(off(k.r)), old(len(k.r)))
ensures len(k.r) > 4

func raster.(*stroker).Add2(k, b, c)
props C20
split
allocates
requires strokerok(k)
modifies k.a, k.anorm, k.r, elems(k.r), deref(asptr(k.p, raster.Path)), elems(deref(asptr(k.p, raster.Path))), gendx, gendy, gstarts, gsx, gsy
ensures strokerok(k)
ensures len(k.r) >= old(len(k.r)) && onecurve(k.r) && (ref(k.r) == old(ref(k.r)) && off(k.r) == old(off(k.r)) || fresh(k.r)) && (old(len(k.r)) > 0 ==> row(k.r)[off(k.r)+1] == old(row(k.r)[off(k.r)+1]) && row(k.r)[off(k.r)+2] == old(row(k.r)[off(k.r)+2]))
ensures let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
ensures old(len(k.r)) > 0 ==> gstarts == old(gstarts) && gsx == old(gsx) && gsy == old(gsy)
ensures old(len(k.r)) == 0 ==> gstarts == old(gstarts) + 1 && gsx == int32(2*old(k.a.X) - row(k.r)[off(k.r)+1]) && gsy == int32(2*old(k.a.Y) - row(k.r)[off(k.r)+2])
use curveispath(old(row(k.r)), old(off(k.r)), old(len(k.r)))
ensures len(k.r) > 4

// a curve of lines and quadratics, after its start
spec segments(P arr, i int, n int) bool = n <= 0 ? n == 0
  : (P[i] == 1 ? n >= 4 && segments(P, i+4, n-4) : P[i] == 2 && n >= 6 && segments(P, i+6, n-6))
pred strokable(q raster.Path) = len(q) >= 4 && row(q)[off(q)] == 0 && segments(row(q), off(q)+4, len(q)-4)

func raster.(*stroker).stroke(k, q)
props C20
allocates
requires adderok(k.p) && tag(k.cr) != 0 && tag(k.jr) != 0 && isout(k.p) && ref(addr(k.r)) != ref(k.p)
requires strokable(q) && apart(k.p, q)
modifies k.a, k.anorm, k.r, deref(asptr(k.p, raster.Path)), elems(deref(asptr(k.p, raster.Path))), gstarts, gsx, gsy, gendx, gendy, gback
ensures let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
ensures gstarts == old(gstarts) + (len(q) > 4 ? 1 : 0)
ensures len(q) > 4 ==> gendx == gsx && gendy == gsy
use unfold(segments(row(q), off(q)+4, len(q)-4), 2)
loop 1
invariant 4 <= i && i <= len(q) && segments(row(q), off(q)+i, len(q)-i)
invariant strokerok(k) && k.p == old(k.p) && fresh(k.r) && row(q) == old(row(q)) && apart(k.p, q)
invariant i == 4 <==> len(k.r) == 0
invariant i == 4 ==> k.a.X == row(q)[off(q)+1] && k.a.Y == row(q)[off(q)+2]
invariant len(k.r) > 0 ==> len(k.r) > 4
invariant gstarts == old(gstarts) + (i > 4 ? 1 : 0)
invariant i > 4 ==> gsx == int32(2*row(q)[off(q)+1] - row(k.r)[off(k.r)+1]) && gsy == int32(2*row(q)[off(q)+2] - row(k.r)[off(k.r)+2])
invariant let q = deref(asptr(k.p, raster.Path)); recorded(q, old(row(q)), old(off(q)), old(len(q)), old(q)) && len(q) >= old(len(q)) && (old(goodpath(q)) ==> goodpath(q))
decreases len(q) - i
oncall raster.addPathReversed(p1, r1)
requires p1 == k.p && gendx == gendx


// ---- Stroke: every curve with a segment becomes one outline
spec curves12(P arr, i int, n int) bool = n <= 0 ? n == 0
  : (P[i] == 0 || P[i] == 1 ? n >= 4 && curves12(P, i+4, n-4) : P[i] == 2 && n >= 6 && curves12(P, i+6, n-6))
spec outlines(P arr, i int, n int) int = n <= 0 ? 0
  : (P[i] == 0 ? (n > 4 && P[i+4] != 0 ? 1 : 0) + outlines(P, i+4, n-4)
  : (P[i] == 1 ? outlines(P, i+4, n-4) : outlines(P, i+6, n-6)))
pred strokeok(q raster.Path) = len(q) == 0 || row(q)[off(q)] == 0 && curves12(row(q), off(q), len(q))

lemma segsnoc(P arr, i int, n int, k int)
requires k == (P[i+n] == 2 ? 6 : 4) && (P[i+n] == 1 || P[i+n] == 2)
induct n
use segsnoc(P, i+4, n-4, k)
use segsnoc(P, i+6, n-6, k)
use unfold(segments(P, i+n, k), 3)
use unfold(segments(P, i, n+k), 2)
use unfold(segments(P, i, k), 3)
ensures n >= 0 && segments(P, i, n) ==> segments(P, i, n+k)

func raster.Stroke(p, q, width, cr, jr)
props C20
nilable p
allocates
requires adderok(p) && isout(p) && strokeok(q) && apart(p, q)
requires tag(raster.RoundCapper) != 0 && tag(raster.RoundJoiner) != 0
use unfold(curves12(row(q), off(q), len(q)), 2) at entry
modifies deref(asptr(p, raster.Path)), elems(deref(asptr(p, raster.Path))), gendx, gendy, gstarts, gsx, gsy, gback
ensures let o = deref(asptr(p, raster.Path)); recorded(o, old(row(o)), old(off(o)), old(len(o)), old(o)) && len(o) >= old(len(o)) && (old(goodpath(o)) ==> goodpath(o))
ensures gstarts == old(gstarts) + outlines(row(q), off(q), len(q))
use unfold(outlines(row(q), off(q)+len(q), 0), 2)
loop 1
invariant 0 <= i && i + 4 <= j && j <= len(q) && tag(s.cr) != 0 && tag(s.jr) != 0 && s.p == p
invariant row(q) == old(row(q)) && row(q)[off(q)+i] == 0 && apart(p, q)
invariant segments(row(q), off(q)+i+4, j-i-4) && curves12(row(q), off(q)+j, len(q)-j)
invariant let o = deref(asptr(p, raster.Path)); recorded(o, old(row(o)), old(off(o)), old(len(o)), old(o)) && len(o) >= old(len(o)) && (old(goodpath(o)) ==> goodpath(o))
invariant gstarts + (j > i+4 ? 1 : 0) + outlines(row(q), off(q)+j, len(q)-j) + (j == i+4 && j < len(q) && row(q)[off(q)+j] != 0 ? 1 : 0) == old(gstarts) + outlines(row(q), off(q), len(q))
decreases len(q) - j
use segsnoc(row(q), off(q)+i+4, j-i-4, row(q)[off(q)+j] == 2 ? 6 : 4) at head
use unfold(segments(row(q), off(q)+i+4, 0), 2) at end
oncall raster.(*stroker).stroke(k, q1)
requires k.p == p && len(q1) >= 4

func raster.(*Path).AddStroke(p, q, width, cr, jr)
props C19 C20
allocates
requires ref(p) == gout && strokeok(q) && ref(deref(p)) != ref(q)
requires tag(raster.RoundCapper) != 0 && tag(raster.RoundJoiner) != 0
modifies deref(p), elems(deref(p)), gendx, gendy, gstarts, gsx, gsy, gback
ensures len(deref(p)) >= old(len(deref(p))) && grown(deref(p), old(row(deref(p))), old(off(deref(p))), old(len(deref(p))))
ensures old(goodpath(deref(p))) ==> goodpath(deref(p))
ensures[C20] gstarts == old(gstarts) + outlines(row(q), off(q), len(q))

