// Contracts for truetype/glyph.go.

// ---- what holds of a buffer before and after every load, and between its steps
pred hintready(g *truetype.GlyphBuf) = g.hinter.font == g.font && ref(g.hinter.functions) != 0 && gsok(g.hinter.defaultGS) && sepok(addr(g.hinter))
  && len(g.hinter.points[0][1]) == len(g.hinter.points[0][0]) && len(g.hinter.points[0][2]) == len(g.hinter.points[0][0])
  && len(g.InFontUnits) == len(g.Unhinted) && len(g.Unhinted) >= len(g.Points)
pred loading(g *truetype.GlyphBuf) = g.font != nil && fontok(g.font) && hinterinv(addr(g.hinter)) && (g.hinting != 0 ==> hintready(g))

// near(y, v, scale, u): y is v*scale/u, rounded to the nearest integer, if the product fits in 32 bits
opaque near(y int, v int, scale int, u int) bool = fits(scale*v, u) ==> isnearest(y, scale*v, u)

func truetype.(*GlyphBuf).addPhantomsAndScale(g, np0, np1, simple, adjust)
props C06 C07
allocates
requires g.font != nil && fontok(g.font)
requires 0 <= np0 && 0 <= np1 && np1 <= len(g.Points)
modifies g.Points, elems(g.Points), g.InFontUnits, elems(g.InFontUnits), g.Unhinted, elems(g.Unhinted)
ensures[C07] old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
ensures len(g.Points) == old(len(g.Points)) + 4 && (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points))
ensures ref(g.InFontUnits) == old(ref(g.InFontUnits)) || fresh(g.InFontUnits)
ensures ref(g.Unhinted) == old(ref(g.Unhinted)) || fresh(g.Unhinted)
ensures len(g.InFontUnits) == old(len(g.InFontUnits)) + (simple && g.hinting != 0 ? old(len(g.Points)) - np1 + 4 : 0)
ensures len(g.Unhinted) == old(len(g.Unhinted)) + (simple && g.hinting != 0 ? old(len(g.Points)) - np1 + 4 : 0)
ensures[C07] g.hinting == 0 ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + np1 <= k && k < off(g.Points) + old(len(g.Points)) ==> near(row(g.Points, X)[k], old(row(g.Points, X))[k - off(g.Points) + old(off(g.Points))], g.scale, g.font.fUnitsPerEm))
ensures[C07] g.hinting == 0 && old(ref(g.Points)) >= 0 ==> near(g.Points[old(len(g.Points))+0].X, old(g.phantomPoints[0].X), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+1].X, old(g.phantomPoints[1].X), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+2].X, old(g.phantomPoints[2].X), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+3].X, old(g.phantomPoints[3].X), g.scale, g.font.fUnitsPerEm)
ensures[C07] g.hinting == 0 ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + np1 <= k && k < off(g.Points) + old(len(g.Points)) ==> near(row(g.Points, Y)[k], old(row(g.Points, Y))[k - off(g.Points) + old(off(g.Points))], g.scale, g.font.fUnitsPerEm))
ensures[C07] g.hinting == 0 && old(ref(g.Points)) >= 0 ==> near(g.Points[old(len(g.Points))+0].Y, old(g.phantomPoints[0].Y), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+1].Y, old(g.phantomPoints[1].Y), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+2].Y, old(g.phantomPoints[2].Y), g.scale, g.font.fUnitsPerEm) && near(g.Points[old(len(g.Points))+3].Y, old(g.phantomPoints[3].Y), g.scale, g.font.fUnitsPerEm)
ensures[C07] g.hinting == 0 ==> (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + 0 <= k && k < off(g.Points) + old(len(g.Points)) ==> row(g.Points, Flags)[k] == old(row(g.Points, Flags))[k - off(g.Points) + old(off(g.Points))])
loop 1
invariant np1 <= i && i <= len(g.Points)
invariant[C07] (forall k int {row(g.Points, X)[k]} :: off(g.Points) + np1 <= k && k < off(g.Points) + i ==> near(row(g.Points, X)[k], pre(row(g.Points, X))[k - off(g.Points) + pre(off(g.Points))], g.scale, g.font.fUnitsPerEm))
invariant[C07] (forall k int {row(g.Points, X)[k]} :: off(g.Points) + i <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, X)[k] == pre(row(g.Points, X))[k - off(g.Points) + pre(off(g.Points))])
invariant[C07] (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + np1 <= k && k < off(g.Points) + i ==> near(row(g.Points, Y)[k], pre(row(g.Points, Y))[k - off(g.Points) + pre(off(g.Points))], g.scale, g.font.fUnitsPerEm))
invariant[C07] (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + i <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Y)[k] == pre(row(g.Points, Y))[k - off(g.Points) + pre(off(g.Points))])
hint[C07] unfold(near(row(g.Points, X)[off(g.Points)+athead(1, i)], pre(row(g.Points, X))[off(g.Points)+athead(1, i)], g.scale, g.font.fUnitsPerEm), 1) at end
hint[C07] unfold(near(row(g.Points, Y)[off(g.Points)+athead(1, i)], pre(row(g.Points, Y))[off(g.Points)+athead(1, i)], g.scale, g.font.fUnitsPerEm), 1) at end
loop 2
invariant np0 <= i

// ---- contour ends: the first n at o of E are positive, non-decreasing and at most m.
pred endsinv(E arr, o int, n int, m int) = (forall k int {E[k]} :: o <= k && k < o + n ==> 1 <= E[k] && E[k] <= m)
  && (forall j int, k int {E[j], E[k]} :: o <= j && j <= k && k < o + n ==> E[j] <= E[k])

// the first n of E (from o) are those of F (from p)
pred same(E arr, o int, F arr, p int, n int) = forall k int {E[k]} :: o <= k && k < o + n ==> E[k] == F[k - o + p]
pred above(E arr, o int, a int, b int, m int) = forall k int {E[k]} :: o + a <= k && k < o + b ==> E[k] > m

// ---- C07: the streams of a simple glyph. B is the row of the glyph's bytes
def bit(f int, m int) bool = mod(div(f, m), 2) == 1
// fl(B, p, k, 0) is where the flag stream that starts at p stands before point k; fl(B, p, k, 1) is how often the flag before it still repeats
spec fl(B arr, p int, k int, sel int) int = k <= 0 ? (sel == 0 ? p : 0)
  : (fl(B,p,k-1,1) > 0 ? (sel == 0 ? fl(B,p,k-1,0) : fl(B,p,k-1,1) - 1)
  : (bit(B[fl(B,p,k-1,0)], 8) ? (sel == 0 ? fl(B,p,k-1,0) + 2 : B[fl(B,p,k-1,0)+1]) : (sel == 0 ? fl(B,p,k-1,0) + 1 : 0)))
// flag is the flag of point k
def flag(B arr, p int, k int) int = fl(B,p,k,1) > 0 ? B[fl(B,p,k,0)-2] : B[fl(B,p,k,0)]
// one axis' flags: 0 for the x axis, 1 for y
def short(f int, ax int) bool = ax == 0 ? bit(f, 2) : bit(f, 4)
def pos(f int, ax int) bool = ax == 0 ? bit(f, 16) : bit(f, 32)
// coff is where the coordinate stream that starts at q stands before point k, and cval is the sum of the first k differences in it
spec coff(B arr, p int, ax int, q int, k int) int = k <= 0 ? q : coff(B,p,ax,q,k-1) + (short(flag(B,p,k-1), ax) ? 1 : (pos(flag(B,p,k-1), ax) ? 0 : 2))
spec cval(B arr, p int, ax int, q int, k int) int = k <= 0 ? 0
  : int16(cval(B,p,ax,q,k-1) + (short(flag(B,p,k-1), ax) ? (pos(flag(B,p,k-1), ax) ? B[coff(B,p,ax,q,k-1)] : -B[coff(B,p,ax,q,k-1)]) : (pos(flag(B,p,k-1), ax) ? 0 : s16(rb16(B, coff(B,p,ax,q,k-1))))))
// where the flags of a glyph at o with ne contours start, and how many points it has
def flagpos(B arr, o int, ne int) int = o + 12 + 2*ne + rb16(B, o + 10 + 2*ne)
def npoints(B arr, o int, ne int) int = ne == 0 ? 0 : 1 + rb16(B, o + 8 + 2*ne)
def xpos(B arr, o int, ne int) int = fl(B, flagpos(B,o,ne), npoints(B,o,ne), 0)
def ypos(B arr, o int, ne int) int = coff(B, flagpos(B,o,ne), 0, xpos(B,o,ne), npoints(B,o,ne))
def pflag(B arr, o int, ne int, k int) int = flag(B, flagpos(B,o,ne), k)
def px(B arr, o int, ne int, k int) int = cval(B, flagpos(B,o,ne), 0, xpos(B,o,ne), k+1)
def py(B arr, o int, ne int, k int) int = cval(B, flagpos(B,o,ne), 1, ypos(B,o,ne), k+1)

// both streams only move on, and a flag that repeats too often is still repeating at the end
lemma[C07] flmono(B arr, p int, k int, n int)
induct n
use flmono(B, p, k, n-1)
ensures 0 <= k && k <= n ==> fl(B,p,n,0) >= fl(B,p,k,0)
lemma[C07] flrep(B arr, p int, k int, n int)
induct n
use flrep(B, p, k, n-1)
ensures 0 <= k && k <= n && fl(B,p,k,1) >= n - k ==> fl(B,p,n,1) == fl(B,p,k,1) - (n - k)
lemma[C07] coffmono(B arr, p int, ax int, q int, k int, n int)
induct n
use coffmono(B, p, ax, q, k, n-1)
ensures 0 <= k && k <= n ==> coff(B,p,ax,q,n) >= coff(B,p,ax,q,k)
def yend(B arr, o int, ne int) int = coff(B, flagpos(B,o,ne), 1, ypos(B,o,ne), npoints(B,o,ne))
pred endsup(B arr, o int, ne int) = forall p int {B[p]} :: o + 12 <= p && p < o + 10 + 2*ne && mod(p - o, 2) == 0 ==> rb16(B, p-2) <= rb16(B, p)
// wellformed: the glyph's n bytes hold its contours' ends, which do not decrease, its instructions, flags that repeat only as often as there are points, and both coordinate streams
pred wellformed(B arr, o int, n int, ne int) = 12 + 2*ne <= n && flagpos(B,o,ne) <= o + n && endsup(B,o,ne)
  && (ne > 0 ==> fl(B, flagpos(B,o,ne), npoints(B,o,ne), 1) == 0 && yend(B,o,ne) <= o + n)

func truetype.(*GlyphBuf).loadSimple(g, glyf, ne) (program, err)
props C06 C07
allocates
requires 0 <= ne && ne <= 32767
modifies g.Points, elems(g.Points), g.Ends, elems(g.Ends)
ensures[C07] old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
ensures ref(g.Points) == old(ref(g.Points)) || fresh(g.Points)
ensures ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends)
ensures tag(err) == 0 || typed(err)
ensures len(g.Points) >= old(len(g.Points)) && len(g.Ends) >= old(len(g.Ends))
ensures same(row(g.Ends), off(g.Ends), old(row(g.Ends)), old(off(g.Ends)), old(len(g.Ends)))
ensures tag(err) == 0 ==> len(g.Ends) == old(len(g.Ends)) + ne
ensures tag(err) == 0 ==> endsinv(row(g.Ends), off(g.Ends) + old(len(g.Ends)), ne, len(g.Points) - old(len(g.Points)))
ensures tag(err) == 0 ==> len(g.Points) - old(len(g.Points)) <= 65536
ensures[C07] tag(err) == 0 ==> len(g.Points) == old(len(g.Points)) + npoints(row(glyf), off(glyf), ne)
ensures[C07] tag(err) == 0 ==> (forall k int {row(g.Ends)[k]} :: off(g.Ends) + old(len(g.Ends)) <= k && k < off(g.Ends) + len(g.Ends) ==> row(g.Ends)[k] == 1 + rb16(row(glyf), off(glyf) + 10 + 2*(k - off(g.Ends) - old(len(g.Ends)))))
ensures[C07] tag(err) == 0 ==> (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Flags)[k] == pflag(row(glyf), off(glyf), ne, k - off(g.Points) - old(len(g.Points))))
ensures[C07] tag(err) == 0 ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, X)[k] == px(row(glyf), off(glyf), ne, k - off(g.Points) - old(len(g.Points))))
ensures[C07] tag(err) == 0 ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Y)[k] == py(row(glyf), off(glyf), ne, k - off(g.Points) - old(len(g.Points))))
ensures[C07] tag(err) == 0 ==> wellformed(row(glyf), off(glyf), len(glyf), ne)
ensures[C07] wellformed(row(glyf), off(glyf), len(glyf), ne) ==> tag(err) == 0
use flmono(row(glyf), flagpos(row(glyf), off(glyf), ne), athead(2, i) - np0 + 1, npoints(row(glyf), off(glyf), ne)) at return
use flrep(row(glyf), flagpos(row(glyf), off(glyf), ne), athead(2, i) - np0 + 1, npoints(row(glyf), off(glyf), ne)) at return
use coffmono(row(glyf), flagpos(row(glyf), off(glyf), ne), 0, xpos(row(glyf), off(glyf), ne), athead(4, i) - np0 + 1, npoints(row(glyf), off(glyf), ne)) at return
use coffmono(row(glyf), flagpos(row(glyf), off(glyf), ne), 1, ypos(row(glyf), off(glyf), ne), athead(5, i) - np0 + 1, npoints(row(glyf), off(glyf), ne)) at return
use coffmono(row(glyf), flagpos(row(glyf), off(glyf), ne), 0, xpos(row(glyf), off(glyf), ne), 0, npoints(row(glyf), off(glyf), ne)) at return
use coffmono(row(glyf), flagpos(row(glyf), off(glyf), ne), 1, ypos(row(glyf), off(glyf), ne), 0, npoints(row(glyf), off(glyf), ne)) at return
ensures[C07] tag(err) == 0 ==> ref(program) == ref(glyf) && off(program) == off(glyf) + 12 + 2*ne && len(program) == rb16(row(glyf), off(glyf) + 10 + 2*ne)
loop 1
invariant 0 <= i && i <= ne && offset == 10 + 2*i && len(g.Ends) == old(len(g.Ends)) + i && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends))
invariant same(row(g.Ends), off(g.Ends), old(row(g.Ends)), old(off(g.Ends)), old(len(g.Ends)))
invariant endsinv(row(g.Ends), off(g.Ends) + old(len(g.Ends)), i, i == 0 ? 0 : g.Ends[len(g.Ends)-1])
invariant i > 0 ==> g.Ends[len(g.Ends)-1] <= 65536
invariant[C07] (forall k int {row(g.Ends)[k]} :: off(g.Ends) + old(len(g.Ends)) <= k && k < off(g.Ends) + len(g.Ends) ==> row(g.Ends)[k] == 1 + rb16(row(glyf), off(glyf) + 10 + 2*(k - off(g.Ends) - old(len(g.Ends)))))
invariant[C07] endsup(row(glyf), off(glyf), i)
loop 2
decreases np1 - i
invariant 0 <= offset && offset <= len(glyf) && np0 <= i && i <= np1 && len(g.Points) == i && (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points))
invariant[C07] old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
invariant[C07] fl(row(glyf), flagpos(row(glyf), off(glyf), ne), i - np0, 0) == off(glyf) + offset && fl(row(glyf), flagpos(row(glyf), off(glyf), ne), i - np0, 1) == 0 && np0 == old(len(g.Points)) && np1 == np0 + npoints(row(glyf), off(glyf), ne)
invariant[C07] (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + i ==> row(g.Points, Flags)[k] == flag(row(glyf), flagpos(row(glyf), off(glyf), ne), k - off(g.Points) - np0))
loop 3
invariant 0 <= offset && offset <= len(glyf) && pre(i) <= i && i + count <= np1 && len(g.Points) == i && (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points))
invariant[C07] old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
invariant[C07] fl(row(glyf), flagpos(row(glyf), off(glyf), ne), i - np0, 0) == off(glyf) + offset && fl(row(glyf), flagpos(row(glyf), off(glyf), ne), i - np0, 1) == count && row(glyf)[off(glyf)+offset-2] == c
invariant[C07] (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + i ==> row(g.Points, Flags)[k] == flag(row(glyf), flagpos(row(glyf), off(glyf), ne), k - off(g.Points) - np0))
hint[C07] (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + athead(3, i) ==> row(g.Points, Flags)[k] == athead(3, row(g.Points, Flags))[k - off(g.Points) + athead(3, off(g.Points))]) at end
hint[C07] (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + athead(3, i) ==> row(g.Points, Flags)[k] == flag(row(glyf), flagpos(row(glyf), off(glyf), ne), k - off(g.Points) - np0)) at end
hint[C07] flag(row(glyf), flagpos(row(glyf), off(glyf), ne), athead(3, i) - np0) == c at end
hint[C07] row(g.Points, Flags)[off(g.Points) + athead(3, i)] == c at end
loop 4
invariant 0 <= offset && offset <= len(glyf) && np0 <= i
invariant[C07] coff(row(glyf), flagpos(row(glyf), off(glyf), ne), 0, xpos(row(glyf), off(glyf), ne), i - np0) == off(glyf) + offset && np0 == old(len(g.Points)) && np1 == np0 + npoints(row(glyf), off(glyf), ne) && i <= np1
invariant[C07] x == cval(row(glyf), flagpos(row(glyf), off(glyf), ne), 0, xpos(row(glyf), off(glyf), ne), i - np0)
invariant[C07] (forall k int {row(g.Points, X)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + i ==> row(g.Points, X)[k] == cval(row(glyf), flagpos(row(glyf), off(glyf), ne), 0, xpos(row(glyf), off(glyf), ne), k - off(g.Points) - np0 + 1))
invariant[C07] endsup(row(glyf), off(glyf), ne) && flagpos(row(glyf), off(glyf), ne) <= off(glyf) + len(glyf)
invariant[C07] fl(row(glyf), flagpos(row(glyf), off(glyf), ne), npoints(row(glyf), off(glyf), ne), 1) == 0
hint[C07] (forall k int {row(g.Points, X)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + athead(4, i) ==> row(g.Points, X)[k] == athead(4, row(g.Points, X))[k - off(g.Points) + athead(4, off(g.Points))]) at end
loop 5
invariant 0 <= offset && offset <= len(glyf) && np0 <= i
invariant[C07] coff(row(glyf), flagpos(row(glyf), off(glyf), ne), 1, ypos(row(glyf), off(glyf), ne), i - np0) == off(glyf) + offset && np0 == old(len(g.Points)) && np1 == np0 + npoints(row(glyf), off(glyf), ne) && i <= np1
invariant[C07] y == cval(row(glyf), flagpos(row(glyf), off(glyf), ne), 1, ypos(row(glyf), off(glyf), ne), i - np0)
invariant[C07] (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + i ==> row(g.Points, Y)[k] == cval(row(glyf), flagpos(row(glyf), off(glyf), ne), 1, ypos(row(glyf), off(glyf), ne), k - off(g.Points) - np0 + 1))
invariant[C07] endsup(row(glyf), off(glyf), ne) && flagpos(row(glyf), off(glyf), ne) <= off(glyf) + len(glyf)
invariant[C07] fl(row(glyf), flagpos(row(glyf), off(glyf), ne), npoints(row(glyf), off(glyf), ne), 1) == 0
hint[C07] (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + np0 <= k && k < off(g.Points) + athead(5, i) ==> row(g.Points, Y)[k] == athead(5, row(g.Points, Y))[k - off(g.Points) + athead(5, off(g.Points))]) at end


// E is F, with d added to those between a and b
pred moved(E arr, F arr, o int, n int, a int, b int, d int) = forall k int {E[k]} :: o <= k && k < o + n ==> E[k] == F[k] + (o + a <= k && k < o + b ? d : 0)

func truetype.(*GlyphBuf).loadCompound(g, recursion, uhm, i, glyf, useMyMetrics) (err)
props C06
allocates
requires loading(g) && 10 <= len(glyf) && 0 <= recursion && recursion < 32 && len(g.Points) <= 131072
requires endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
decreases 64 - 2*recursion
modifies g.Points, elems(g.Points), g.InFontUnits, elems(g.InFontUnits), g.Unhinted, elems(g.Unhinted), g.Ends, elems(g.Ends), g.phantomPoints, g.pp1x, g.metricsSet, g.numLoads, g.tmp, elems(g.tmp),
  g.hinter.gs, g.hinter.points[1][0], g.hinter.points[1][1], g.hinter.points[1][2], g.hinter.ends, g.hinter.scaledCVTInitialized, g.hinter.scaledCVT, elems(g.hinter.scaledCVT), elems(g.hinter.stack), elems(g.hinter.store), elems(g.hinter.functions), elems(g.hinter.points[0][0]), elems(g.hinter.points[0][1])
ensures hinterinv(addr(g.hinter))
ensures ref(g.Points) == old(ref(g.Points)) || fresh(g.Points)
ensures ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends)
ensures ref(g.InFontUnits) == old(ref(g.InFontUnits)) || fresh(g.InFontUnits)
ensures ref(g.Unhinted) == old(ref(g.Unhinted)) || fresh(g.Unhinted)
ensures ref(g.tmp) == old(ref(g.tmp)) || fresh(g.tmp)
ensures ref(g.hinter.scaledCVT) == old(ref(g.hinter.scaledCVT)) || fresh(g.hinter.scaledCVT)
ensures tag(err) == 0 ==> loading(g) && len(g.Points) <= 131072
ensures len(g.Points) >= old(len(g.Points)) && len(g.Ends) >= old(len(g.Ends))
ensures tag(err) == 0 ==> same(row(g.Ends), off(g.Ends), old(row(g.Ends)), old(off(g.Ends)), old(len(g.Ends)))
ensures tag(err) == 0 ==> endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
ensures tag(err) == 0 ==> above(row(g.Ends), off(g.Ends), old(len(g.Ends)), len(g.Ends), old(len(g.Points)))
loop 1
decreases len(glyf) - offset
invariant 10 <= offset && offset <= len(glyf) && loading(g) && len(g.Points) <= 131072
invariant (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points)) && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends)) && (ref(g.InFontUnits) == old(ref(g.InFontUnits)) || fresh(g.InFontUnits)) && (ref(g.Unhinted) == old(ref(g.Unhinted)) || fresh(g.Unhinted)) && (ref(g.tmp) == old(ref(g.tmp)) || fresh(g.tmp)) && (ref(g.hinter.scaledCVT) == old(ref(g.hinter.scaledCVT)) || fresh(g.hinter.scaledCVT))
invariant len(g.Points) >= old(len(g.Points)) && len(g.Ends) >= old(len(g.Ends))
invariant same(row(g.Ends), off(g.Ends), old(row(g.Ends)), old(off(g.Ends)), old(len(g.Ends)))
invariant endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
invariant above(row(g.Ends), off(g.Ends), old(len(g.Ends)), len(g.Ends), old(len(g.Points)))
loop 2
invariant old(len(g.Points)) <= j
loop 3
invariant old(len(g.Points)) <= j
loop 5
invariant 0 <= iter(5) && iter(5) <= len(ends) && ref(g.Ends) == ref(ends) && off(ends) == off(g.Ends) + old(len(g.Ends)) && len(ends) == len(g.Ends) - old(len(g.Ends)) && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends))
invariant moved(row(g.Ends), pre(row(g.Ends)), off(g.Ends), len(g.Ends), old(len(g.Ends)), old(len(g.Ends)) + iter(5), -old(len(g.Points)))
loop 6
invariant 0 <= iter(6) && iter(6) <= len(ends) && ref(g.Ends) == ref(ends) && off(ends) == off(g.Ends) + old(len(g.Ends)) && len(ends) == len(g.Ends) - old(len(g.Ends)) && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends))
invariant moved(row(g.Ends), pre(row(g.Ends)), off(g.Ends), len(g.Ends), old(len(g.Ends)), old(len(g.Ends)) + iter(6), old(len(g.Points)))

// ---- C07: where the font has glyph i, if the glyph index table and the glyph table reach so far, and whether it is a simple glyph
def gl0(f *truetype.Font, i int) int = f.locaOffsetFormat == 1 ? 2*be16(f.loca, 2*i) : be32(f.loca, 4*i)
def gl1(f *truetype.Font, i int) int = f.locaOffsetFormat == 1 ? 2*be16(f.loca, 2*i+2) : be32(f.loca, 4*i+4)
pred isglyph(f *truetype.Font, i int) = (f.locaOffsetFormat == 1 ? 2*i + 4 : 4*i + 8) <= len(f.loca) && gl0(f,i) + 10 <= gl1(f,i) && gl1(f,i) <= len(f.glyf)
def gne(f *truetype.Font, i int) int = s16(be16(f.glyf, gl0(f,i)))
def gxmin(f *truetype.Font, i int) int = s16(be16(f.glyf, gl0(f,i) + 2))
def gorg(f *truetype.Font, i int) int = off(f.glyf) + gl0(f,i)
pred issimple(f *truetype.Font, i int) = isglyph(f, i) && gne(f, i) >= 0

func truetype.(*GlyphBuf).load(g, recursion, i, useMyMetrics) (err)
props C06 C07
opt fuel 0
allocates
requires loading(g) && 0 <= i && len(g.Points) <= 131072
requires endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
decreases max(65 - 2*recursion, 0)
modifies g.Points, elems(g.Points), g.InFontUnits, elems(g.InFontUnits), g.Unhinted, elems(g.Unhinted), g.Ends, elems(g.Ends), g.phantomPoints, g.pp1x, g.metricsSet, g.numLoads, g.tmp, elems(g.tmp),
  g.hinter.gs, g.hinter.points[1][0], g.hinter.points[1][1], g.hinter.points[1][2], g.hinter.ends, g.hinter.scaledCVTInitialized, g.hinter.scaledCVT, elems(g.hinter.scaledCVT), elems(g.hinter.stack), elems(g.hinter.store), elems(g.hinter.functions), elems(g.hinter.points[0][0]), elems(g.hinter.points[0][1])
ensures hinterinv(addr(g.hinter))
ensures[C07] g.hinting == 0 && issimple(g.font, i) && old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
ensures ref(g.Points) == old(ref(g.Points)) || fresh(g.Points)
ensures ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends)
ensures ref(g.InFontUnits) == old(ref(g.InFontUnits)) || fresh(g.InFontUnits)
ensures ref(g.Unhinted) == old(ref(g.Unhinted)) || fresh(g.Unhinted)
ensures ref(g.tmp) == old(ref(g.tmp)) || fresh(g.tmp)
ensures ref(g.hinter.scaledCVT) == old(ref(g.hinter.scaledCVT)) || fresh(g.hinter.scaledCVT)
ensures tag(err) == 0 ==> loading(g) && len(g.Points) <= 131072
ensures len(g.Points) >= old(len(g.Points)) && len(g.Ends) >= old(len(g.Ends))
ensures tag(err) == 0 ==> same(row(g.Ends), off(g.Ends), old(row(g.Ends)), old(off(g.Ends)), old(len(g.Ends)))
ensures tag(err) == 0 ==> endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
ensures tag(err) == 0 ==> above(row(g.Ends), off(g.Ends), old(len(g.Ends)), len(g.Ends), old(len(g.Points)))
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> len(g.Points) == old(len(g.Points)) + npoints(row(g.font.glyf), gorg(g.font, i), gne(g.font, i)) && len(g.Ends) == old(len(g.Ends)) + gne(g.font, i)
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Ends)[k]} :: off(g.Ends) + old(len(g.Ends)) <= k && k < off(g.Ends) + len(g.Ends) ==> row(g.Ends)[k] == old(len(g.Points)) + 1 + rb16(row(g.font.glyf), gorg(g.font, i) + 10 + 2*(k - off(g.Ends) - old(len(g.Ends)))))
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Flags)[k] == pflag(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))))
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> near(row(g.Points, X)[k], px(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))), g.scale, g.font.fUnitsPerEm))
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> near(row(g.Points, Y)[k], py(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))), g.scale, g.font.fUnitsPerEm))
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> useMyMetrics && !old(g.metricsSet) ==> g.metricsSet && g.pp1x == g.phantomPoints[0].X
ensures[C07] tag(err) == 0 && g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> useMyMetrics ==> near(g.phantomPoints[0].X, gxmin(g.font, i) - hbearing(g.font, i), g.scale, g.font.fUnitsPerEm) && near(g.phantomPoints[1].X, gxmin(g.font, i) - hbearing(g.font, i) + hadvance(g.font, i), g.scale, g.font.fUnitsPerEm)
ensures[C07] recursion < 32 && old(g.numLoads) < 4096 && old(len(g.Points)) <= 65536 && g.hinting == 0 && issimple(g.font, i) && wellformed(row(g.font.glyf), gorg(g.font, i), gl1(g.font, i) - gl0(g.font, i), gne(g.font, i)) ==> tag(err) == 0
loop 1
invariant ne0 <= i && i <= len(g.Ends) && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends))
invariant moved(row(g.Ends), pre(row(g.Ends)), off(g.Ends), len(g.Ends), ne0, i, np0)
oncall truetype.(*Font).unscaledHMetric(f1, i1)
requires[C07] isglyph(g.font, i) ==> ref(glyf) == ref(g.font.glyf) && off(glyf) == gorg(g.font, i) && len(glyf) == gl1(g.font, i) - gl0(g.font, i)
requires[C07] isglyph(g.font, i) ==> ne == gne(g.font, i) && boundsXMin == gxmin(g.font, i)
oncall truetype.(*GlyphBuf).addPhantomsAndScale(g1, a, b, si, ad)
requires[C07] issimple(g.font, i) ==> a == old(len(g.Points)) && b == old(len(g.Points)) && g1 == g
requires[C07] issimple(g.font, i) && old(ref(g.Points)) >= 0 ==> ref(g.Points) >= 0
requires[C07] issimple(g.font, i) ==> len(g.Points) == old(len(g.Points)) + npoints(row(g.font.glyf), gorg(g.font, i), gne(g.font, i))
requires[C07] old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> g.phantomPoints[0].X == gxmin(g.font, i) - hbearing(g.font, i) && g.phantomPoints[1].X == gxmin(g.font, i) - hbearing(g.font, i) + hadvance(g.font, i)
requires[C07] issimple(g.font, i) ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, X)[k] == px(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))))
requires[C07] issimple(g.font, i) ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Y)[k] == py(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))))
requires[C07] issimple(g.font, i) ==> (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Flags)[k] == pflag(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))))
hint[C07] g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points)-4 ==> near(row(g.Points, X)[k], px(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))), g.scale, g.font.fUnitsPerEm)) at after
hint[C07] g.hinting == 0 && old(ref(g.Points)) >= 0 && issimple(g.font, i) ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + old(len(g.Points)) <= k && k < off(g.Points) + len(g.Points)-4 ==> near(row(g.Points, Y)[k], py(row(g.font.glyf), gorg(g.font, i), gne(g.font, i), k - off(g.Points) - old(len(g.Points))), g.scale, g.font.fUnitsPerEm)) at after

pred inbox(P arr, o int, n int, lo int, hi int) = forall k int {P[k]} :: o <= k && k < o + n ==> lo <= P[k] && P[k] <= hi
pred attained(P arr, o int, n int, v int) = exists k int {P[k]} :: o <= k && k < o + n && P[k] == v

// ---- loading: whatever was in the buffer before, load starts from an empty outline
func truetype.(*GlyphBuf).Load(g, f, scale, i, h) (err)
props C06 C07 C26
opt fuel 0
allocates
requires f != nil && fontok(f) && hinterinv(addr(g.hinter))
modifies g.Points, elems(g.Points), g.InFontUnits, elems(g.InFontUnits), g.Unhinted, elems(g.Unhinted), g.Ends, elems(g.Ends), g.font, g.scale, g.hinting, g.AdvanceWidth, g.Bounds, g.phantomPoints, g.pp1x, g.metricsSet, g.numLoads, g.tmp, elems(g.tmp), gruns,
  g.hinter.font, g.hinter.scale, g.hinter.functions, g.hinter.stack, g.hinter.store, g.hinter.gs, g.hinter.defaultGS, g.hinter.points, g.hinter.ends, g.hinter.scaledCVTInitialized, g.hinter.scaledCVT, elems(g.hinter.scaledCVT), elems(g.hinter.stack), elems(g.hinter.store), elems(g.hinter.functions), elems(g.hinter.points[0][0]), elems(g.hinter.points[0][1]), elems(g.hinter.points[0][2])
ensures hinterinv(addr(g.hinter))
ensures (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points)) && (ref(g.InFontUnits) == old(ref(g.InFontUnits)) || fresh(g.InFontUnits)) && (ref(g.Unhinted) == old(ref(g.Unhinted)) || fresh(g.Unhinted)) && (ref(g.Ends) == old(ref(g.Ends)) || fresh(g.Ends)) && (ref(g.tmp) == old(ref(g.tmp)) || fresh(g.tmp)) && (ref(g.hinter.stack) == old(ref(g.hinter.stack)) || fresh(g.hinter.stack)) && (ref(g.hinter.store) == old(ref(g.hinter.store)) || fresh(g.hinter.store)) && (ref(g.hinter.functions) == old(ref(g.hinter.functions)) || fresh(g.hinter.functions)) && (ref(g.hinter.scaledCVT) == old(ref(g.hinter.scaledCVT)) || fresh(g.hinter.scaledCVT)) && (ref(g.hinter.points[0][0]) == old(ref(g.hinter.points[0][0])) || fresh(g.hinter.points[0][0])) && (ref(g.hinter.points[0][1]) == old(ref(g.hinter.points[0][1])) || fresh(g.hinter.points[0][1])) && (ref(g.hinter.points[0][2]) == old(ref(g.hinter.points[0][2])) || fresh(g.hinter.points[0][2]))
ensures tag(err) == 0 ==> endsinv(row(g.Ends), off(g.Ends), len(g.Ends), len(g.Points))
ensures tag(err) == 0 && len(g.Points) > 0 && (h == 0 || inbox(row(g.Points, X), off(g.Points), len(g.Points), -2147483648, 2147483584)) ==> inbox(row(g.Points, X), off(g.Points), len(g.Points), g.Bounds.Min.X, g.Bounds.Max.X)
ensures tag(err) == 0 && len(g.Points) > 0 && (h == 0 || inbox(row(g.Points, Y), off(g.Points), len(g.Points), -2147483648, 2147483584)) ==> inbox(row(g.Points, Y), off(g.Points), len(g.Points), g.Bounds.Min.Y, g.Bounds.Max.Y)
ensures tag(err) == 0 && len(g.Points) > 0 && h == 0 ==> attained(row(g.Points, X), off(g.Points), len(g.Points), g.Bounds.Min.X) && attained(row(g.Points, X), off(g.Points), len(g.Points), g.Bounds.Max.X)
ensures tag(err) == 0 && len(g.Points) > 0 && h == 0 ==> attained(row(g.Points, Y), off(g.Points), len(g.Points), g.Bounds.Min.Y) && attained(row(g.Points, Y), off(g.Points), len(g.Points), g.Bounds.Max.Y)
ensures tag(err) == 0 && len(g.Points) == 0 ==> g.Bounds.Min.X == 0 && g.Bounds.Min.Y == 0 && g.Bounds.Max.X == 0 && g.Bounds.Max.Y == 0
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> len(g.Points) == npoints(row(f.glyf), gorg(f, i), gne(f, i)) && len(g.Ends) == gne(f, i)
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> (forall k int {row(g.Ends)[k]} :: off(g.Ends) <= k && k < off(g.Ends) + len(g.Ends) ==> row(g.Ends)[k] == 1 + rb16(row(f.glyf), gorg(f, i) + 10 + 2*(k - off(g.Ends))))
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> (forall k int {row(g.Points, Flags)[k]} :: off(g.Points) + 0 <= k && k < off(g.Points) + len(g.Points) ==> row(g.Points, Flags)[k] == pflag(row(f.glyf), gorg(f, i), gne(f, i), k - off(g.Points)))
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) + 0 <= k && k < off(g.Points) + len(g.Points) ==> near(int32(row(g.Points, X)[k] + g.pp1x), px(row(f.glyf), gorg(f, i), gne(f, i), k - off(g.Points)), scale, f.fUnitsPerEm))
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> (forall k int {row(g.Points, Y)[k]} :: off(g.Points) + 0 <= k && k < off(g.Points) + len(g.Points) ==> near(row(g.Points, Y)[k], py(row(f.glyf), gorg(f, i), gne(f, i), k - off(g.Points)), scale, f.fUnitsPerEm))
ensures[C07] tag(err) == 0 && h == 0 && old(ref(g.Points)) >= 0 && issimple(f, i) ==> near(g.pp1x, gxmin(f, i) - hbearing(f, i), scale, f.fUnitsPerEm) && near(int32(g.AdvanceWidth + g.pp1x), gxmin(f, i) - hbearing(f, i) + hadvance(f, i), scale, f.fUnitsPerEm)
ensures[C07] h == 0 && issimple(f, i) && wellformed(row(f.glyf), gorg(f, i), gl1(f, i) - gl0(f, i), gne(f, i)) ==> tag(err) == 0
loop 1
invariant 0 <= iter(1) && (ref(g.Points) == old(ref(g.Points)) || fresh(g.Points))
invariant[C07] h == 0 && old(ref(g.Points)) >= 0 && issimple(f, old(i)) ==> (forall k int {row(g.Points, X)[k]} :: off(g.Points) <= k && k < off(g.Points) + len(g.Points) ==> near(k < off(g.Points) + iter(1) ? int32(row(g.Points, X)[k] + g.pp1x) : row(g.Points, X)[k], px(row(f.glyf), gorg(f, old(i)), gne(f, old(i)), k - off(g.Points)), scale, f.fUnitsPerEm))
hint[C07] h == 0 ==> int32(row(g.Points, X)[off(g.Points)+athead(1, iter(1))] + g.pp1x) == athead(1, row(g.Points, X)[off(g.Points)+iter(1)]) at end
loop 2
decreases len(hdmx)
loop 3
invariant 0 <= iter(3) && iter(3) <= len(g.Points) - 1
invariant inbox(row(g.Points, X), off(g.Points), 1+iter(3), g.Bounds.Min.X, g.Bounds.Max.X) && inbox(row(g.Points, Y), off(g.Points), 1+iter(3), g.Bounds.Min.Y, g.Bounds.Max.Y)
invariant attained(row(g.Points, X), off(g.Points), 1+iter(3), g.Bounds.Min.X) && attained(row(g.Points, X), off(g.Points), 1+iter(3), g.Bounds.Max.X)
invariant attained(row(g.Points, Y), off(g.Points), 1+iter(3), g.Bounds.Min.Y) && attained(row(g.Points, Y), off(g.Points), 1+iter(3), g.Bounds.Max.Y)
oncall truetype.(*GlyphBuf).load(g0, rec, j, umm)
requires[C26] g0 == g && rec == 0 && j == i && umm && len(g.Points) == 0 && len(g.Ends) == 0 && len(g.Unhinted) == 0 && len(g.InFontUnits) == 0
requires[C26] g.font == f && g.scale == scale && g.hinting == h && g.pp1x == 0 && !g.metricsSet && g.numLoads == 0
requires[C26] g.phantomPoints[0].X == 0 && g.phantomPoints[0].Y == 0 && g.phantomPoints[1].X == 0 && g.phantomPoints[1].Y == 0
requires[C26] g.phantomPoints[2].X == 0 && g.phantomPoints[2].Y == 0 && g.phantomPoints[3].X == 0 && g.phantomPoints[3].Y == 0
requires[C26] h != 0 ==> g.hinter.font == f && g.hinter.scale == scale
