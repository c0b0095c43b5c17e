// Contracts for truetype/hint.go.

func truetype.fabs(x) (y)
props C09 C08
pure
ensures[C09] y == (x < 0 ? (x == -2147483648 ? x : -x) : x)

func truetype.bool2int32(b) (y)
props C09 C08
pure
ensures y == (b ? 1 : 0)

// fdiv truncates toward zero, as the instruction set documents.
func truetype.fdiv(x, y) (z)
props C09 C08
pure
requires y != 0
ensures[C09] z == int32(y > 0 ? (x >= 0 ? div(64*x, y) : -div(-64*x, y)) : (x >= 0 ? -div(64*x, -y) : div(-64*x, -y)))

func truetype.fmul(x, y) (z)
props C09 C08
pure
ensures[C09] z == int32(div(x*y + 32, 64))

// mulDiv is x*y/z rounded to nearest, ties away from zero.
def nearestq(n int, d int) int = n >= 0 ? div(n + div(d, 2), d) : -div(div(d, 2) - n, d)
lemma[C09] prodbound(x int, y int)
requires -2147483648 <= x <= 2147483648 && -2147483648 <= y <= 2147483648
ensures -4611686018427387904 <= x*y && x*y <= 4611686018427387904

func truetype.mulDiv(x, y, z) (q)
props C09 C08
pure
requires z != 0
use prodbound(x, y)
ensures[C09] -9223372036854775808 < z && abs(x*y) + div(abs(z), 2) <= 9223372036854775807 ==> q == nearestq(z < 0 ? -(x*y) : x*y, abs(z))
ensures z == 64 && -2147483648 <= x <= 2147483648 && -2147483648 <= y <= 2147483648 ==> -72057594037927937 <= q && q <= 72057594037927937

// ---- the graphics state: zone pointers, loop count, delta shift and rounding state are always in range.
def roundok(super45 bool, period int, phase int, threshold int) bool =
  0 <= phase && phase < max(period, 1) && -period <= threshold && threshold <= 2*period
  && (super45 ? period == 22 || period == 45 || period == 90 : period == 0 || period == 32 || period == 64 || period == 128)
pred gsok(g truetype.graphicsState) = 0 <= g.zp[0] && g.zp[0] < 2 && 0 <= g.zp[1] && g.zp[1] < 2 && 0 <= g.zp[2] && g.zp[2] < 2
  && g.loop >= 0 && 0 <= g.deltaShift && g.deltaShift <= 6 && roundok(g.roundSuper45, g.roundPeriod, g.roundPhase, g.roundThreshold)

// ---- rounding: a positive value goes down to the phase plus a multiple of the period, after the
// threshold is added and the phase subtracted, and not below the phase; a negative one is its mirror image.
def rounded(v int, period int, phase int, threshold int) int = max(0, period*div(v - phase + threshold, period)) + phase

func truetype.(*hinter).round(h, x) (y)
props C09 C08
requires gsok(h.gs)
ensures[C09] h.gs.roundPeriod == 0 ==> y == x
ensures[C09] h.gs.roundPeriod != 0 && 0 < x && x < 2147483000 ==> y == rounded(x, h.gs.roundPeriod, h.gs.roundPhase, h.gs.roundThreshold)
ensures[C09] h.gs.roundPeriod != 0 && -2147483000 < x && x < 0 ==> y == -rounded(-x, h.gs.roundPeriod, h.gs.roundPhase, h.gs.roundThreshold)

lemma[C09] halves(x int, q int)
requires -2147483648 <= x <= 2147483647 && -32768 <= q <= 32767
ensures mod(x,65536)*q + 65536*(div(x,65536)*q) == x*q
ensures -2147450880 <= mod(x,65536)*q && mod(x,65536)*q <= 2147450880
ensures -1073741824 <= div(x,65536)*q && div(x,65536)*q <= 1073741824
ensures -70368744177664 <= x*q && x*q <= 70368744177664

func truetype.dotProduct(x, y, q) (d)
props C09 C08
pure
use halves(x, q[0])
use halves(y, q[1])
hint[C09] 4294967296*hi1 + lo1 == x*q[0]
hint[C09] 4294967296*hi2 + lo2 == y*q[1]
hint[C09] -16384 <= hi1 && hi1 <= 16384 && -16384 <= hi2 && hi2 <= 16384
hint[C09] s == (x*q[0] + y*q[1] < 0 ? -1 : 0)
hint[C09] -40000 <= hi && hi <= 40000
hint[C09] 4294967296*(hi - (l < lo ? 1 : 0)) + lo == x*q[0] + y*q[1] + s
hint[C09] l + (l < lo ? 4294967296 : 0) == lo + 8192
hint[C09] 4294967296*hi + l == x*q[0] + y*q[1] + 8192 - (x*q[0] + y*q[1] < 0 ? 1 : 0)
ensures[C09] d == int32(div(x*q[0] + y*q[1] + 8192 - (x*q[0] + y*q[1] < 0 ? 1 : 0), 16384))

extern math.Hypot(x, y) (z)

func truetype.normalize(x, y) (v)
props C08

// the bytes that follow an instruction and belong to it
def payload(P arr, o int, pc int) int = P[o+pc] == 64 ? 1 + P[o+pc+1] : P[o+pc] == 65 ? 1 + 2*P[o+pc+1]
  : 176 <= P[o+pc] && P[o+pc] <= 183 ? P[o+pc] - 175 : 184 <= P[o+pc] && P[o+pc] <= 191 ? 2*(P[o+pc] - 183) : 0
func truetype.skipInstructionPayload(program, pc) (newPC, ok)
props C08 C09
pure
requires 0 <= pc && pc < len(program)
ensures ok ==> pc <= newPC && newPC <= pc + 512
ensures[C09] ok <==> !((program[pc] == 64 || program[pc] == 65) && pc + 1 >= len(program))
ensures[C09] ok ==> newPC == pc + payload(row(program), off(program), pc)

// condend: where a skipped branch ends, looked for in the last m bytes before e, s of which are skipped first: how many
// bytes are left at the ELSE (for a branch after an IF) or EIF of the same depth, or -1 if there is none
spec condend(P arr, e int, m int, s int, depth int, kind int) int = m <= 0 ? -1
  : s > 0 ? condend(P, e, m-1, s-1, depth, kind)
  : P[e-m] == 88 ? condend(P, e, m-1, 0, depth+1, kind)
  : P[e-m] == 27 ? (depth == 0 && kind == 0 ? m : condend(P, e, m-1, 0, depth, kind))
  : P[e-m] == 89 ? (depth == 0 ? m : condend(P, e, m-1, 0, depth-1, kind))
  : (P[e-m] == 64 || P[e-m] == 65) && m <= 1 ? -1
  : condend(P, e, m-1, payload(P, e, 0-m), depth, kind)
lemma[C09] condskip(P arr, e int, m int, s int, depth int, kind int)
induct s
use condskip(P, e, m-1, s-1, depth, kind)
ensures s >= 0 ==> condend(P, e, m, s, depth, kind) == condend(P, e, m-s, 0, depth, kind)

// fdefend: where the function that starts in the last m bytes before e ends, s of which are skipped first: how many bytes are
// left at its ENDF, or -1 if there is none or another definition comes first
spec fdefend(P arr, e int, m int, s int) int = m <= 0 ? -1
  : s > 0 ? fdefend(P, e, m-1, s-1)
  : P[e-m] == 44 ? -1
  : P[e-m] == 45 ? m
  : (P[e-m] == 64 || P[e-m] == 65) && m <= 1 ? -1
  : fdefend(P, e, m-1, payload(P, e, 0-m))
lemma[C09] fdefskip(P arr, e int, m int, s int)
induct s
use fdefskip(P, e, m-1, s-1)
ensures s >= 0 ==> fdefend(P, e, m, s) == fdefend(P, e, m-s, 0)

// ---- the points of the twilight zone and of the glyph: every current point has an unhinted and an unscaled one.
pred zonesok(h *truetype.hinter) = len(h.points[0][1]) == len(h.points[0][0]) && len(h.points[0][2]) == len(h.points[0][0])
  && len(h.points[1][1]) >= len(h.points[1][0]) && len(h.points[1][2]) >= len(h.points[1][0])

func truetype.(*hinter).point(h, zonePointer, pt, i) (p)
props C08 C09
requires 0 <= zonePointer && zonePointer < 3 && 0 <= pt && pt < 3 && gsok(h.gs)
ensures i < 0 || i >= len(h.points[h.gs.zp[zonePointer]][pt]) ? p == nil : p == addr(h.points[h.gs.zp[zonePointer]][pt][i])

func truetype.(*hinter).move(h, p, distance, touch)
props C08 C09
requires p != nil
modifies p.X, p.Y, p.Flags

func truetype.(*hinter).displacement(h, useZP1) (zonePointer, i, d, ok)
props C08 C09
requires gsok(h.gs)
ensures 0 <= zonePointer && zonePointer <= 1

pred hinterok(h *truetype.hinter) = h.font != nil && fontok(h.font) && ref(h.functions) != 0 && gsok(h.gs) && zonesok(h)
  
// cvtok: the control values are the font's, scaled
def cvtprod(h *truetype.hinter, k int) int = int32(h.scale * s16(256*h.font.cvt[2*k] + h.font.cvt[2*k+1]))
pred cvtok(h *truetype.hinter) = len(h.scaledCVT) == div(len(h.font.cvt), 2) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) && fits(cvtprod(h, k), h.font.fUnitsPerEm) ==> isnearest(h.scaledCVT[k], cvtprod(h, k), h.font.fUnitsPerEm))
pred cvtkept(R int, r int, O int, o int, N int, n int) = R == r && O == o && N == n

func truetype.(*hinter).initializeScaledCVT(h)
props C08 C09
allocates
requires h.font != nil && fontok(h.font)
modifies h.scaledCVTInitialized, h.scaledCVT, elems(h.scaledCVT)
ensures ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT)
ensures[C09] h.scaledCVTInitialized && cvtok(h)
loop 1
invariant[C09] len(h.scaledCVT) == div(len(h.font.cvt), 2)
invariant[C09] forall k int {h.scaledCVT[k]} :: 0 <= k && k < it && fits(cvtprod(h, k), h.font.fUnitsPerEm) ==> isnearest(h.scaledCVT[k], cvtprod(h, k), h.font.fUnitsPerEm)

func truetype.(*hinter).getScaledCVT(h, i) (v)
props C08 C09
allocates
requires h.font != nil && fontok(h.font)
modifies h.scaledCVTInitialized, h.scaledCVT, elems(h.scaledCVT)
ensures ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT)
ensures[C09] h.scaledCVTInitialized && (old(h.scaledCVTInitialized) ? cvtkept(ref(h.scaledCVT), old(ref(h.scaledCVT)), off(h.scaledCVT), old(off(h.scaledCVT)), len(h.scaledCVT), old(len(h.scaledCVT))) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) ==> h.scaledCVT[k] == old(h.scaledCVT[k])) : cvtok(h))
ensures[C09] v == (0 <= i && i < len(h.scaledCVT) ? h.scaledCVT[i] : 0)

func truetype.(*hinter).setScaledCVT(h, i, v)
props C08 C09
allocates
requires h.font != nil && fontok(h.font)
modifies h.scaledCVTInitialized, h.scaledCVT, elems(h.scaledCVT)
ensures ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT)
ensures[C09] h.scaledCVTInitialized && (old(h.scaledCVTInitialized) ==> cvtkept(ref(h.scaledCVT), old(ref(h.scaledCVT)), off(h.scaledCVT), old(off(h.scaledCVT)), len(h.scaledCVT), old(len(h.scaledCVT))) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) ==> h.scaledCVT[k] == (k == i ? v : old(h.scaledCVT[k]))))
ensures[C09] 0 <= i && i < len(h.scaledCVT) ==> h.scaledCVT[i] == v
ensures[C09] !old(h.scaledCVTInitialized) ==> len(h.scaledCVT) == div(len(h.font.cvt), 2) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) && k != i && fits(cvtprod(h, k), h.font.fUnitsPerEm) ==> isnearest(h.scaledCVT[k], cvtprod(h, k), h.font.fUnitsPerEm))

func truetype.(*hinter).iupInterp(h, interpY, p1, p2, ref1, ref2)
props C08 C09
requires zonesok(h)
requires 0 <= p1 && p2 < len(h.points[1][0]) && 0 <= ref1 && 0 <= ref2
modifies elems(h.points[1][0])
loop 1
invariant p1 <= i
loop 2
invariant p1 <= i && ifu1 < ifu2

func truetype.(*hinter).iupShift(h, interpY, p1, p2, p)
props C08 C09
requires zonesok(h)
requires 0 <= p1 && p2 <= len(h.points[1][0]) && 0 <= p && p < len(h.points[1][0])
modifies elems(h.points[1][0])
loop 1
invariant p1 <= i

extern errors.New(s) (e)
ensures tag(e) != 0

// The stack and the storage are separate arrays of their own.
pred sepok(h *truetype.hinter) = ref(h.stack) >= 0 && ref(h.store) >= 0 && (ref(h.stack) != ref(h.store) || ref(h.stack) == 0)

pred endsokr(E arr, o int, m int, n int) = forall k int {E[k]} :: o <= k && k < o + m ==> 0 <= E[k] && E[k] <= n
pred endsok(ends []int, n int) = endsokr(row(ends), off(ends), len(ends), n)

// ---- C09: what the instructions do
def divided(x int, y int) int = int32(y > 0 ? (x >= 0 ? div(64*x, y) : -div(-64*x, y)) : (x >= 0 ? -div(64*x, -y) : div(-64*x, -y)))
def roundval(v int, period int, phase int, threshold int) int = period == 0 ? v : v > 0 ? rounded(v, period, phase, threshold) : -rounded(-v, period, phase, threshold)

func truetype.(*hinter).run(h, program, pCurrent, pUnhinted, pInFontUnits, ends) (err)
props C08 C09
allocates
requires h.font != nil && fontok(h.font) && ref(h.functions) != 0 && gsok(h.defaultGS)
requires sepok(h)
requires len(h.points[0][1]) == len(h.points[0][0]) && len(h.points[0][2]) == len(h.points[0][0])
requires len(pCurrent) <= 2147483647 && len(pUnhinted) >= len(pCurrent) && len(pInFontUnits) >= len(pCurrent) && endsok(ends, len(pCurrent))
modifies h.gs, h.points[1][0], h.points[1][1], h.points[1][2], h.ends, h.scaledCVTInitialized, h.scaledCVT, elems(h.scaledCVT), elems(h.stack), elems(h.store), elems(h.functions), elems(pCurrent), elems(h.points[0][0]), elems(h.points[0][1])
ensures tag(err) == 0 ==> gsok(h.gs)
ensures ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT)
loop 1
decreases 100000 - steps
invariant 0 <= steps && steps < 100000
invariant h.font != nil && fontok(h.font) && ref(h.functions) != 0
invariant gsok(h.gs) && sepok(h)
invariant zonesok(h)
invariant ref(h.functions) == old(ref(h.functions)) && ref(h.stack) == old(ref(h.stack)) && ref(h.store) == old(ref(h.store)) && (ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT))
invariant ref(h.points[0][0]) == old(ref(h.points[0][0])) && ref(h.points[0][1]) == old(ref(h.points[0][1])) && ref(h.points[1][0]) == ref(pCurrent)
invariant len(h.points[1][0]) == len(pCurrent) && ref(h.ends) == ref(ends) && off(h.ends) == off(ends) && len(h.ends) == len(ends)
invariant 0 <= top && top <= len(h.stack)
invariant 0 <= callStackTop && callStackTop <= 32
invariant[C09] forall k int {callStack[k].pc} :: 0 <= k && k < callStackTop ==> 0 <= callStack[k].pc && callStack[k].pc <= 4611686018427387904
step[C09] head(program[pc]) == 80 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) < head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 81 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) <= head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 82 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) > head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 83 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) >= head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 84 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) == head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 85 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) != head(h.stack[top-1]) ? 1 : 0)
step[C09] head(program[pc]) == 90 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) != 0 && head(h.stack[top-1]) != 0 ? 1 : 0)
step[C09] head(program[pc]) == 91 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == (head(h.stack[top-2]) != 0 || head(h.stack[top-1]) != 0 ? 1 : 0)
step[C09] head(program[pc]) == 92 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == (head(h.stack[top-1]) == 0 ? 1 : 0)
step[C09] head(program[pc]) == 96 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == int32(head(h.stack[top-2]) + head(h.stack[top-1]))
step[C09] head(program[pc]) == 97 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == int32(head(h.stack[top-2]) - head(h.stack[top-1]))
step[C09] head(program[pc]) == 98 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == divided(head(h.stack[top-2]), head(h.stack[top-1]))
step[C09] head(program[pc]) == 99 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == int32(div(head(h.stack[top-2])*head(h.stack[top-1]) + 32, 64))
step[C09] head(program[pc]) == 100 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == (head(h.stack[top-1]) < 0 ? int32(-head(h.stack[top-1])) : head(h.stack[top-1]))
step[C09] head(program[pc]) == 101 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == int32(-head(h.stack[top-1]))
step[C09] head(program[pc]) == 102 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == head(h.stack[top-1]) - mod(head(h.stack[top-1]), 64)
step[C09] head(program[pc]) == 103 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == int32(head(h.stack[top-1]) + 63) - mod(int32(head(h.stack[top-1]) + 63), 64)
step[C09] head(program[pc]) == 139 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == max(head(h.stack[top-2]), head(h.stack[top-1]))
step[C09] head(program[pc]) == 140 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == min(head(h.stack[top-2]), head(h.stack[top-1]))
step[C09] head(program[pc]) == 86 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 86 && abs(head(h.stack[top-1])) < 2147483000 && head(h.stack[top-1]) != 0 ==> h.stack[head(top)-1] == mod(div(roundval(head(h.stack[top-1]), head(h.gs.roundPeriod), head(h.gs.roundPhase), head(h.gs.roundThreshold)), 64), 2)
step[C09] head(program[pc]) == 87 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 87 && abs(head(h.stack[top-1])) < 2147483000 && head(h.stack[top-1]) != 0 ==> h.stack[head(top)-1] == 1 - mod(div(roundval(head(h.stack[top-1]), head(h.gs.roundPeriod), head(h.gs.roundPhase), head(h.gs.roundThreshold)), 64), 2)
step[C09] (head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107) ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] (head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107) && abs(head(h.stack[top-1])) < 2147483000 && head(h.stack[top-1]) != 0 ==> h.stack[head(top)-1] == roundval(head(h.stack[top-1]), head(h.gs.roundPeriod), head(h.gs.roundPhase), head(h.gs.roundThreshold))
step[C09] (head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111) ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == head(h.stack[top-1])
step[C09] head(program[pc]) == 32 ==> top == head(top)+1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == head(h.stack[top-1]) && h.stack[head(top)-0] == head(h.stack[top-1])
step[C09] head(program[pc]) == 33 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 35 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-2] == head(h.stack[top-1]) && h.stack[head(top)-1] == head(h.stack[top-2])
step[C09] head(program[pc]) == 138 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-3 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-3] == head(h.stack[top-2]) && h.stack[head(top)-2] == head(h.stack[top-1]) && h.stack[head(top)-1] == head(h.stack[top-3])
step[C09] head(program[pc]) == 34 ==> top == 0 && pc == head(pc)+1
step[C09] head(program[pc]) == 36 ==> top == head(top)+1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-0] == int32(head(top))
step[C09] head(program[pc]) == 37 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == head(h.stack[top-1-h.stack[top-1]])
step[C09] head(program[pc]) == 38 ==> top == head(top)-1 && pc == head(pc)+1 && h.stack[head(top)-2] == head(h.stack[top-1-h.stack[top-1]]) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == (k < head(top)-1-head(h.stack[top-1]) ? head(h.stack[k]) : head(h.stack[k+1])))
step[C09] head(program[pc]) == 64 ==> top == head(top)+(head(program[pc+1])) && pc == head(pc)+2+1*(head(program[pc+1])) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && (forall k int {h.stack[k]} :: head(top) <= k && k < head(top)+(head(program[pc+1])) ==> h.stack[k] == head(program[pc+2+(k-top)]))
step[C09] head(program[pc]) == 65 ==> top == head(top)+(head(program[pc+1])) && pc == head(pc)+2+2*(head(program[pc+1])) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && (forall k int {h.stack[k]} :: head(top) <= k && k < head(top)+(head(program[pc+1])) ==> h.stack[k] == s16(256*head(program[pc+2+2*(k-top)]) + head(program[pc+2+2*(k-top)+1])))
step[C09] (head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183) ==> top == head(top)+(head(program[pc])-175) && pc == head(pc)+1+1*(head(program[pc])-175)
step[C09] (head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183) ==> (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] (head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183) ==> (forall k int {h.stack[k]} :: head(top) <= k && k < head(top)+(head(program[pc])-175) ==> h.stack[k] == head(program[pc+1+(k-top)]))
step[C09] (head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191) ==> top == head(top)+(head(program[pc])-183) && pc == head(pc)+1+2*(head(program[pc])-183)
step[C09] (head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191) ==> (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] (head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191) ==> (forall k int {h.stack[k]} :: head(top) <= k && k < head(top)+(head(program[pc])-183) ==> h.stack[k] == s16(256*head(program[pc+1+2*(k-top)]) + head(program[pc+1+2*(k-top)+1])))
step[C09] head(program[pc]) == 66 ==> top == head(top)-2 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && (forall k int {h.store[k]} :: 0 <= k && k < len(h.store) ==> h.store[k] == (k == head(h.stack[top-2]) ? head(h.stack[top-1]) : head(h.store[k])))
step[C09] head(program[pc]) == 67 ==> top == head(top)+0 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == head(h.store[h.stack[top-1]])
step[C09] head(program[pc]) == 24 ==> h.gs.roundPeriod == 64 && h.gs.roundPhase == 0 && h.gs.roundThreshold == 32 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 25 ==> h.gs.roundPeriod == 64 && h.gs.roundPhase == 32 && h.gs.roundThreshold == 32 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 61 ==> h.gs.roundPeriod == 32 && h.gs.roundPhase == 0 && h.gs.roundThreshold == 16 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 122 ==> h.gs.roundPeriod == 0 && h.gs.roundPhase == 0 && h.gs.roundThreshold == 0 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 124 ==> h.gs.roundPeriod == 64 && h.gs.roundPhase == 0 && h.gs.roundThreshold == 63 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 125 ==> h.gs.roundPeriod == 64 && h.gs.roundPhase == 0 && h.gs.roundThreshold == 0 && !h.gs.roundSuper45 && top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 118 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && !h.gs.roundSuper45
step[C09] head(program[pc]) == 118 && mod(div(head(h.stack[top-1]), 64), 4) < 3 ==> h.gs.roundPeriod == (mod(div(head(h.stack[top-1]), 64), 4) == 0 ? 32 : mod(div(head(h.stack[top-1]), 64), 4) == 1 ? 64 : 128)
step[C09] head(program[pc]) == 118 ==> h.gs.roundPhase == div(h.gs.roundPeriod*mod(div(head(h.stack[top-1]), 16), 4), 4) && h.gs.roundThreshold == (mod(head(h.stack[top-1]), 16) == 0 ? h.gs.roundPeriod - 1 : mod(head(h.stack[top-1]), 16) >= 4 ? div(h.gs.roundPeriod*(mod(head(h.stack[top-1]), 16) - 4), 8) : -div(h.gs.roundPeriod*(4 - mod(head(h.stack[top-1]), 16)), 8))
step[C09] head(program[pc]) == 119 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.roundSuper45
step[C09] head(program[pc]) == 119 && mod(div(head(h.stack[top-1]), 64), 4) < 3 ==> h.gs.roundPeriod == (mod(div(head(h.stack[top-1]), 64), 4) == 0 ? 22 : mod(div(head(h.stack[top-1]), 64), 4) == 1 ? 45 : 90)
step[C09] head(program[pc]) == 119 ==> h.gs.roundPhase == div(h.gs.roundPeriod*mod(div(head(h.stack[top-1]), 16), 4), 4) && h.gs.roundThreshold == (mod(head(h.stack[top-1]), 16) == 0 ? h.gs.roundPeriod - 1 : mod(head(h.stack[top-1]), 16) >= 4 ? div(h.gs.roundPeriod*(mod(head(h.stack[top-1]), 16) - 4), 8) : -div(h.gs.roundPeriod*(4 - mod(head(h.stack[top-1]), 16)), 8))
step[C09] head(program[pc]) == 88 ==> top == head(top)-1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 88 ==> (head(h.stack[top-1]) != 0 ? pc == head(pc)+1 : pc == head(len(program)) - condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 0) + 1 && condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 0) > 0)
step[C09] head(program[pc]) == 27 ==> top == head(top) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top) ==> h.stack[k] == head(h.stack[k])) && pc == head(len(program)) - condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 1) + 1 && condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 1) > 0
step[C09] head(program[pc]) == 89 ==> top == head(top) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top) ==> h.stack[k] == head(h.stack[k])) && pc == head(pc)+1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 88 ==> head(top) < 1 || head(steps) >= 99999 || head(h.stack[top-1]) == 0 && condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 0) == -1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 27 ==> head(steps) >= 99999 || condend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0, 0, 1) == -1
step[C09] head(program[pc]) == 43 ==> top == head(top)-1 && pc == 0 && callStackTop == head(callStackTop)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 43 ==> haskey(h.functions, head(h.stack[top-1])) && ref(program) == ref(h.functions[head(h.stack[top-1])]) && off(program) == off(h.functions[head(h.stack[top-1])]) && len(program) == len(h.functions[head(h.stack[top-1])])
step[C09] head(program[pc]) == 43 ==> callStack[callStackTop-1].pc == head(pc) && callStack[callStackTop-1].loopCount == 1 && ref(callStack[callStackTop-1].program) == head(ref(program)) && off(callStack[callStackTop-1].program) == head(off(program)) && len(callStack[callStackTop-1].program) == head(len(program))
step[C09] head(program[pc]) == 42 && head(h.stack[top-2]) != 0 ==> top == head(top)-2 && pc == 0 && callStackTop == head(callStackTop)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 42 && head(h.stack[top-2]) != 0 ==> haskey(h.functions, head(h.stack[top-1])) && ref(program) == ref(h.functions[head(h.stack[top-1])]) && off(program) == off(h.functions[head(h.stack[top-1])]) && len(program) == len(h.functions[head(h.stack[top-1])])
step[C09] head(program[pc]) == 42 && head(h.stack[top-2]) != 0 ==> callStack[callStackTop-1].pc == head(pc) && callStack[callStackTop-1].loopCount == head(h.stack[top-2]) && ref(callStack[callStackTop-1].program) == head(ref(program)) && off(callStack[callStackTop-1].program) == head(off(program)) && len(callStack[callStackTop-1].program) == head(len(program))
step[C09] head(program[pc]) == 42 && head(h.stack[top-2]) == 0 ==> top == head(top)-2 && pc == head(pc)+1 && callStackTop == head(callStackTop) && ref(program) == head(ref(program)) && off(program) == head(off(program)) && len(program) == head(len(program)) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 45 ==> top == head(top) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top) ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 45 && head(callStack[callStackTop-1].loopCount) != 1 ==> pc == 0 && callStackTop == head(callStackTop) && ref(program) == head(ref(program)) && off(program) == head(off(program)) && len(program) == head(len(program)) && (head(callStack[callStackTop-1].loopCount) > 0-2147483648 ==> callStack[callStackTop-1].loopCount == head(callStack[callStackTop-1].loopCount)-1) && callStack[callStackTop-1].pc == head(callStack[callStackTop-1].pc) && ref(callStack[callStackTop-1].program) == head(ref(callStack[callStackTop-1].program)) && off(callStack[callStackTop-1].program) == head(off(callStack[callStackTop-1].program)) && len(callStack[callStackTop-1].program) == head(len(callStack[callStackTop-1].program))
step[C09] head(program[pc]) == 45 && head(callStack[callStackTop-1].loopCount) == 1 ==> callStackTop == head(callStackTop)-1 && pc == head(callStack[callStackTop-1].pc)+1 && ref(program) == head(ref(callStack[callStackTop-1].program)) && off(program) == head(off(callStack[callStackTop-1].program)) && len(program) == head(len(callStack[callStackTop-1].program))
step[C09] head(program[pc]) == 44 ==> top == head(top)-1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && callStackTop == head(callStackTop) && ref(program) == head(ref(program)) && off(program) == head(off(program)) && len(program) == head(len(program)) && fdefend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0) > 0 && pc == head(len(program)) - fdefend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0) + 1
step[C09] head(program[pc]) == 44 ==> haskey(h.functions, head(h.stack[top-1])) && ref(h.functions[head(h.stack[top-1])]) == head(ref(program)) && off(h.functions[head(h.stack[top-1])]) == head(off(program)) + head(pc) + 1 && len(h.functions[head(h.stack[top-1])]) == head(len(program)) - fdefend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0) - head(pc)
step[C09] head(program[pc]) == 44 ==> (forall k int {haskey(h.functions, k)} :: k != head(h.stack[top-1]) ==> (haskey(h.functions, k) <==> head(haskey(h.functions, k))) && ref(h.functions[k]) == head(ref(h.functions[k])) && off(h.functions[k]) == head(off(h.functions[k])) && len(h.functions[k]) == head(len(h.functions[k])))
step[C09] head(program[pc]) != 44 ==> (forall k int {haskey(h.functions, k)} :: (haskey(h.functions, k) <==> head(haskey(h.functions, k))) && ref(h.functions[k]) == head(ref(h.functions[k])) && off(h.functions[k]) == head(off(h.functions[k])) && len(h.functions[k]) == head(len(h.functions[k])))
step[C09] head(program[pc]) != 45 ==> (forall k int {callStack[k].pc} :: 0 <= k && k < head(callStackTop) && k < callStackTop ==> callStack[k].pc == head(callStack[k].pc) && callStack[k].loopCount == head(callStack[k].loopCount) && ref(callStack[k].program) == head(ref(callStack[k].program)) && off(callStack[k].program) == head(off(callStack[k].program)) && len(callStack[k].program) == head(len(callStack[k].program)))
step[C09] head(program[pc]) == 45 ==> (forall k int {callStack[k].pc} :: 0 <= k && k < head(callStackTop)-1 ==> callStack[k].pc == head(callStack[k].pc) && callStack[k].loopCount == head(callStack[k].loopCount) && ref(callStack[k].program) == head(ref(callStack[k].program)) && off(callStack[k].program) == head(off(callStack[k].program)) && len(callStack[k].program) == head(len(callStack[k].program)))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 43 ==> head(top) < 1 || head(steps) >= 99999 || head(callStackTop) >= 32 || !head(haskey(h.functions, h.stack[top-1]))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 42 ==> head(top) < 2 || head(steps) >= 99999 || head(callStackTop) >= 32 || !head(haskey(h.functions, h.stack[top-1]))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 45 ==> head(steps) >= 99999 || head(callStackTop) == 0
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 44 ==> head(top) < 1 || head(steps) >= 99999 || fdefend(head(row(program)), head(off(program)) + head(len(program)), head(len(program)) - head(pc) - 1, 0) == -1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 89 ==> head(steps) >= 99999
step[C09] head(program[pc]) == 28 ==> top == head(top)-1 && pc == head(pc) + head(h.stack[top-1]) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 120 ==> top == head(top)-2 && pc == head(pc) + (head(h.stack[top-1]) != 0 ? head(h.stack[top-2]) : 1) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 121 ==> top == head(top)-2 && pc == head(pc) + (head(h.stack[top-1]) == 0 ? head(h.stack[top-2]) : 1) && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k]))
step[C09] head(program[pc]) == 0 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.pv[0] == 0 && h.gs.pv[1] == 16384 && h.gs.fv[0] == 0 && h.gs.fv[1] == 16384 && h.gs.dv[0] == 0 && h.gs.dv[1] == 16384
step[C09] head(program[pc]) == 1 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.pv[0] == 16384 && h.gs.pv[1] == 0 && h.gs.fv[0] == 16384 && h.gs.fv[1] == 0 && h.gs.dv[0] == 16384 && h.gs.dv[1] == 0
step[C09] head(program[pc]) == 2 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.pv[0] == 0 && h.gs.pv[1] == 16384 && h.gs.dv[0] == 0 && h.gs.dv[1] == 16384
step[C09] head(program[pc]) == 3 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.pv[0] == 16384 && h.gs.pv[1] == 0 && h.gs.dv[0] == 16384 && h.gs.dv[1] == 0
step[C09] head(program[pc]) == 4 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.fv[0] == 0 && h.gs.fv[1] == 16384
step[C09] head(program[pc]) == 5 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.fv[0] == 16384 && h.gs.fv[1] == 0
step[C09] head(program[pc]) == 14 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.fv[0] == head(h.gs.pv[0]) && h.gs.fv[1] == head(h.gs.pv[1])
step[C09] head(program[pc]) == 12 ==> top == head(top)+2 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)] == head(h.gs.pv[0]) && h.stack[head(top)+1] == head(h.gs.pv[1])
step[C09] head(program[pc]) == 13 ==> top == head(top)+2 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)] == head(h.gs.fv[0]) && h.stack[head(top)+1] == head(h.gs.fv[1])
step[C09] head(program[pc]) == 16 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.rp[0] == head(h.stack[top-1])
step[C09] head(program[pc]) == 19 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.zp[0] == head(h.stack[top-1]) && (head(h.stack[top-1]) == 0 || head(h.stack[top-1]) == 1)
step[C09] head(program[pc]) == 17 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.rp[1] == head(h.stack[top-1])
step[C09] head(program[pc]) == 20 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.zp[1] == head(h.stack[top-1]) && (head(h.stack[top-1]) == 0 || head(h.stack[top-1]) == 1)
step[C09] head(program[pc]) == 18 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.rp[2] == head(h.stack[top-1])
step[C09] head(program[pc]) == 21 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.zp[2] == head(h.stack[top-1]) && (head(h.stack[top-1]) == 0 || head(h.stack[top-1]) == 1)
step[C09] head(program[pc]) == 22 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.zp[0] == head(h.stack[top-1]) && h.gs.zp[1] == head(h.stack[top-1]) && h.gs.zp[2] == head(h.stack[top-1]) && (head(h.stack[top-1]) == 0 || head(h.stack[top-1]) == 1)
step[C09] head(program[pc]) == 23 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.loop == head(h.stack[top-1])
step[C09] head(program[pc]) == 26 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.minDist == head(h.stack[top-1])
step[C09] head(program[pc]) == 29 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.controlValueCutIn == head(h.stack[top-1])
step[C09] head(program[pc]) == 30 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.singleWidthCutIn == head(h.stack[top-1])
step[C09] head(program[pc]) == 94 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.deltaBase == head(h.stack[top-1])
step[C09] head(program[pc]) == 95 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.gs.deltaShift == head(h.stack[top-1])
step[C09] head(program[pc]) == 23 ==> head(h.stack[top-1]) >= 0
step[C09] head(program[pc]) == 95 ==> 0 <= head(h.stack[top-1]) && head(h.stack[top-1]) <= 6
step[C09] head(program[pc]) == 77 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.gs.autoFlip
step[C09] head(program[pc]) == 78 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && !h.gs.autoFlip
step[C09] (head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.pv[0] == head(h.gs.pv[0]) && h.gs.pv[1] == head(h.gs.pv[1]) && h.gs.dv[0] == head(h.gs.dv[0]) && h.gs.dv[1] == head(h.gs.dv[1])
step[C09] (head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.fv[0] == head(h.gs.fv[0]) && h.gs.fv[1] == head(h.gs.fv[1])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.rp[0] == head(h.gs.rp[0])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.zp[0] == head(h.gs.zp[0])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.rp[1] == head(h.gs.rp[1])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 21 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.zp[1] == head(h.gs.zp[1])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.rp[2] == head(h.gs.rp[2])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.zp[2] == head(h.gs.zp[2])
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.controlValueCutIn == head(h.gs.controlValueCutIn)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.singleWidthCutIn == head(h.gs.singleWidthCutIn)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.singleWidth == head(h.gs.singleWidth)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 95) ==> h.gs.deltaBase == head(h.gs.deltaBase)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94) ==> h.gs.deltaShift == head(h.gs.deltaShift)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.minDist == head(h.gs.minDist)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.loop == head(h.gs.loop)
step[C09] (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 94 || head(program[pc]) == 95) ==> h.gs.autoFlip == head(h.gs.autoFlip)
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 94) ==> head(steps) >= 99999 || head(top) < 1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 14 || head(program[pc]) == 77 || head(program[pc]) == 78) ==> head(steps) >= 99999 || false
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 12 || head(program[pc]) == 13) ==> head(steps) >= 99999 || head(top) + 1 >= head(len(h.stack))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22) ==> head(steps) >= 99999 || head(top) < 1 || head(h.stack[top-1]) < 0 || head(h.stack[top-1]) > 1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 23 ==> head(steps) >= 99999 || head(top) < 1 || head(h.stack[top-1]) < 0
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 95 ==> head(steps) >= 99999 || head(top) < 1 || head(h.stack[top-1]) < 0 || head(h.stack[top-1]) > 6
step[C09] head(program[pc]) == 31 ==> top == head(top)-1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && (fits(int32(head(h.scale) * head(h.stack[top-1])), h.font.fUnitsPerEm) ==> isnearest(h.gs.singleWidth, int32(head(h.scale) * head(h.stack[top-1])), h.font.fUnitsPerEm))
step[C09] (head(program[pc]) == 75 || head(program[pc]) == 76) ==> top == head(top)+1 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-0 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)] == div(head(h.scale), 64)
step[C09] head(program[pc]) == 69 ==> top == head(top) && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-1 ==> h.stack[k] == head(h.stack[k])) && h.stack[head(top)-1] == (0 <= head(h.stack[top-1]) && head(h.stack[top-1]) < len(h.scaledCVT) ? h.scaledCVT[head(h.stack[top-1])] : 0)
step[C09] head(program[pc]) == 69 ==> h.scaledCVTInitialized && (head(h.scaledCVTInitialized) ? cvtkept(ref(h.scaledCVT), head(ref(h.scaledCVT)), off(h.scaledCVT), head(off(h.scaledCVT)), len(h.scaledCVT), head(len(h.scaledCVT))) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) ==> h.scaledCVT[k] == head(h.scaledCVT[k])) : cvtok(h))
step[C09] head(program[pc]) == 68 ==> top == head(top)-2 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.scaledCVTInitialized && (0 <= head(h.stack[top-2]) && head(h.stack[top-2]) < len(h.scaledCVT) ==> h.scaledCVT[head(h.stack[top-2])] == head(h.stack[top-1]))
step[C09] head(program[pc]) == 112 ==> top == head(top)-2 && pc == head(pc)+1 && (forall k int {h.stack[k]} :: 0 <= k && k < head(top)-2 ==> h.stack[k] == head(h.stack[k])) && h.scaledCVTInitialized && (0 <= head(h.stack[top-2]) && head(h.stack[top-2]) < len(h.scaledCVT) && fits(int32(head(h.scale) * head(h.stack[top-1])), h.font.fUnitsPerEm) ==> isnearest(h.scaledCVT[head(h.stack[top-2])], int32(head(h.scale) * head(h.stack[top-1])), h.font.fUnitsPerEm))
step[C09] (head(program[pc]) == 68 || head(program[pc]) == 112) ==> (head(h.scaledCVTInitialized) ? cvtkept(ref(h.scaledCVT), head(ref(h.scaledCVT)), off(h.scaledCVT), head(off(h.scaledCVT)), len(h.scaledCVT), head(len(h.scaledCVT))) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) && k != head(h.stack[top-2]) ==> h.scaledCVT[k] == head(h.scaledCVT[k])) : len(h.scaledCVT) == div(len(h.font.cvt), 2) && (forall k int {h.scaledCVT[k]} :: 0 <= k && k < len(h.scaledCVT) && k != head(h.stack[top-2]) && fits(cvtprod(h, k), h.font.fUnitsPerEm) ==> isnearest(h.scaledCVT[k], cvtprod(h, k), h.font.fUnitsPerEm)))
step[C09] (head(program[pc]) == 31 || head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112) ==> h.gs.pv[0] == head(h.gs.pv[0]) && h.gs.pv[1] == head(h.gs.pv[1]) && h.gs.fv[0] == head(h.gs.fv[0]) && h.gs.fv[1] == head(h.gs.fv[1]) && h.gs.dv[0] == head(h.gs.dv[0]) && h.gs.dv[1] == head(h.gs.dv[1]) && h.gs.rp[0] == head(h.gs.rp[0]) && h.gs.rp[1] == head(h.gs.rp[1]) && h.gs.rp[2] == head(h.gs.rp[2]) && h.gs.zp[0] == head(h.gs.zp[0]) && h.gs.zp[1] == head(h.gs.zp[1]) && h.gs.zp[2] == head(h.gs.zp[2]) && h.gs.controlValueCutIn == head(h.gs.controlValueCutIn) && h.gs.singleWidthCutIn == head(h.gs.singleWidthCutIn) && h.gs.deltaBase == head(h.gs.deltaBase) && h.gs.deltaShift == head(h.gs.deltaShift) && h.gs.minDist == head(h.gs.minDist) && h.gs.loop == head(h.gs.loop) && h.gs.autoFlip == head(h.gs.autoFlip)
step[C09] (head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112) ==> h.gs.singleWidth == head(h.gs.singleWidth)
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 31 || head(program[pc]) == 69) ==> head(steps) >= 99999 || head(top) < 1
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 68 || head(program[pc]) == 112) ==> head(steps) >= 99999 || head(top) < 2
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 75 || head(program[pc]) == 76) ==> head(steps) >= 99999 || head(top) >= head(len(h.stack))
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125 || head(program[pc]) == 118 || head(program[pc]) == 119 || head(program[pc]) == 66) ==> (h.scaledCVTInitialized <==> head(h.scaledCVTInitialized)) && cvtkept(ref(h.scaledCVT), head(ref(h.scaledCVT)), off(h.scaledCVT), head(off(h.scaledCVT)), len(h.scaledCVT), head(len(h.scaledCVT))) && row(h.scaledCVT) == head(row(h.scaledCVT))
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 31 || head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112 || head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125 || head(program[pc]) == 118 || head(program[pc]) == 119 || head(program[pc]) == 66) ==> callStackTop == head(callStackTop) && ref(program) == head(ref(program)) && off(program) == head(off(program)) && len(program) == head(len(program)) && ref(h.stack) == head(ref(h.stack)) && off(h.stack) == head(off(h.stack)) && len(h.stack) == head(len(h.stack)) && ref(h.store) == head(ref(h.store)) && off(h.store) == head(off(h.store)) && len(h.store) == head(len(h.store))
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125 || head(program[pc]) == 118 || head(program[pc]) == 119 || head(program[pc]) == 66) ==> h.gs.pv[0] == head(h.gs.pv[0]) && h.gs.pv[1] == head(h.gs.pv[1]) && h.gs.fv[0] == head(h.gs.fv[0]) && h.gs.fv[1] == head(h.gs.fv[1]) && h.gs.dv[0] == head(h.gs.dv[0]) && h.gs.dv[1] == head(h.gs.dv[1]) && h.gs.rp[0] == head(h.gs.rp[0]) && h.gs.rp[1] == head(h.gs.rp[1]) && h.gs.rp[2] == head(h.gs.rp[2]) && h.gs.zp[0] == head(h.gs.zp[0]) && h.gs.zp[1] == head(h.gs.zp[1]) && h.gs.zp[2] == head(h.gs.zp[2]) && h.gs.controlValueCutIn == head(h.gs.controlValueCutIn) && h.gs.singleWidthCutIn == head(h.gs.singleWidthCutIn) && h.gs.singleWidth == head(h.gs.singleWidth) && h.gs.deltaBase == head(h.gs.deltaBase) && h.gs.deltaShift == head(h.gs.deltaShift) && h.gs.minDist == head(h.gs.minDist) && h.gs.loop == head(h.gs.loop) && h.gs.autoFlip == head(h.gs.autoFlip)
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 31 || head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112 || head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 66) ==> h.gs.roundPeriod == head(h.gs.roundPeriod) && h.gs.roundPhase == head(h.gs.roundPhase) && h.gs.roundThreshold == head(h.gs.roundThreshold) && h.gs.roundSuper45 == head(h.gs.roundSuper45)
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 31 || head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112 || head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125 || head(program[pc]) == 118 || head(program[pc]) == 119) ==> (forall k int {h.store[k]} :: 0 <= k && k < len(h.store) ==> h.store[k] == head(h.store[k]))
step[C09] (head(program[pc]) == 88 || head(program[pc]) == 27 || head(program[pc]) == 89 || head(program[pc]) == 31 || head(program[pc]) == 75 || head(program[pc]) == 76 || head(program[pc]) == 69 || head(program[pc]) == 68 || head(program[pc]) == 112 || head(program[pc]) == 0 || head(program[pc]) == 1 || head(program[pc]) == 2 || head(program[pc]) == 3 || head(program[pc]) == 4 || head(program[pc]) == 5 || head(program[pc]) == 12 || head(program[pc]) == 13 || head(program[pc]) == 14 || head(program[pc]) == 16 || head(program[pc]) == 17 || head(program[pc]) == 18 || head(program[pc]) == 19 || head(program[pc]) == 20 || head(program[pc]) == 21 || head(program[pc]) == 22 || head(program[pc]) == 23 || head(program[pc]) == 26 || head(program[pc]) == 29 || head(program[pc]) == 30 || head(program[pc]) == 77 || head(program[pc]) == 78 || head(program[pc]) == 94 || head(program[pc]) == 95 || head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 92 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 98 || head(program[pc]) == 99 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 32 || head(program[pc]) == 33 || head(program[pc]) == 35 || head(program[pc]) == 138 || head(program[pc]) == 34 || head(program[pc]) == 36 || head(program[pc]) == 37 || head(program[pc]) == 38 || head(program[pc]) == 64 || head(program[pc]) == 65 || head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183 || head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191 || head(program[pc]) == 67 || head(program[pc]) == 28 || head(program[pc]) == 120 || head(program[pc]) == 121 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125 || head(program[pc]) == 118 || head(program[pc]) == 119 || head(program[pc]) == 66) ==> row(h.points[0][0], X) == head(row(h.points[0][0], X)) && row(h.points[0][0], Y) == head(row(h.points[0][0], Y)) && row(h.points[0][0], Flags) == head(row(h.points[0][0], Flags)) && row(h.points[1][0], X) == head(row(h.points[1][0], X)) && row(h.points[1][0], Y) == head(row(h.points[1][0], Y)) && row(h.points[1][0], Flags) == head(row(h.points[1][0], Flags))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 80 || head(program[pc]) == 81 || head(program[pc]) == 82 || head(program[pc]) == 83 || head(program[pc]) == 84 || head(program[pc]) == 85 || head(program[pc]) == 90 || head(program[pc]) == 91 || head(program[pc]) == 96 || head(program[pc]) == 97 || head(program[pc]) == 99 || head(program[pc]) == 139 || head(program[pc]) == 140 || head(program[pc]) == 35 || head(program[pc]) == 120 || head(program[pc]) == 121) ==> head(top) < 2 || head(steps) >= 99999 || false
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 92 || head(program[pc]) == 100 || head(program[pc]) == 101 || head(program[pc]) == 102 || head(program[pc]) == 103 || head(program[pc]) == 86 || head(program[pc]) == 87 || head(program[pc]) == 104 || head(program[pc]) == 105 || head(program[pc]) == 106 || head(program[pc]) == 107 || head(program[pc]) == 108 || head(program[pc]) == 109 || head(program[pc]) == 110 || head(program[pc]) == 111 || head(program[pc]) == 33 || head(program[pc]) == 118 || head(program[pc]) == 119 || head(program[pc]) == 28) ==> head(top) < 1 || head(steps) >= 99999 || false
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 98 ==> head(top) < 2 || head(steps) >= 99999 || head(h.stack[top-1]) == 0
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 138 ==> head(top) < 3 || head(steps) >= 99999 || false
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 34 || head(program[pc]) == 24 || head(program[pc]) == 25 || head(program[pc]) == 61 || head(program[pc]) == 122 || head(program[pc]) == 124 || head(program[pc]) == 125) ==> head(top) < 0 || head(steps) >= 99999 || false
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 32 ==> head(top) < 1 || head(steps) >= 99999 || head(top) >= head(len(h.stack))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 36 ==> head(top) < 0 || head(steps) >= 99999 || head(top) >= head(len(h.stack))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 37 || head(program[pc]) == 38) ==> head(top) < 1 || head(steps) >= 99999 || head(h.stack[top-1]) <= 0 || head(h.stack[top-1]) >= head(top)
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 66 ==> head(top) < 2 || head(steps) >= 99999 || head(h.stack[top-2]) < 0 || head(h.stack[top-2]) >= head(len(h.store))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 67 ==> head(top) < 1 || head(steps) >= 99999 || head(h.stack[top-1]) < 0 || head(h.stack[top-1]) >= head(len(h.store))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 64 ==> head(top) < 0 || head(steps) >= 99999 || head(pc)+1 >= head(len(program)) || head(top) + head(program[pc+1]) > head(len(h.stack)) || head(pc)+2+1*head(program[pc+1]) > head(len(program))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && head(program[pc]) == 65 ==> head(top) < 0 || head(steps) >= 99999 || head(pc)+1 >= head(len(program)) || head(top) + head(program[pc+1]) > head(len(h.stack)) || head(pc)+2+2*head(program[pc+1]) > head(len(program))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 176 || head(program[pc]) == 177 || head(program[pc]) == 178 || head(program[pc]) == 179 || head(program[pc]) == 180 || head(program[pc]) == 181 || head(program[pc]) == 182 || head(program[pc]) == 183) ==> head(top) < 0 || head(steps) >= 99999 || head(top) + head(program[pc])-175 > head(len(h.stack)) || head(pc)+1+(head(program[pc])-175) > head(len(program))
exit[C09] 0 <= head(pc) && head(pc) < head(len(program)) && (head(program[pc]) == 184 || head(program[pc]) == 185 || head(program[pc]) == 186 || head(program[pc]) == 187 || head(program[pc]) == 188 || head(program[pc]) == 189 || head(program[pc]) == 190 || head(program[pc]) == 191) ==> head(top) < 0 || head(steps) >= 99999 || head(top) + head(program[pc])-183 > head(len(h.stack)) || head(pc)+1+2*(head(program[pc])-183) > head(len(program))
loop 2
decreases max(len(program) - pc, 0)
invariant startPC == pre(pc) + 1 && pre(pc) <= pc && pc <= len(program) + 512
invariant[C09] fdefend(row(program), off(program) + len(program), len(program) - pc - 1, 0) == fdefend(row(program), off(program) + len(program), len(program) - pre(pc) - 1, 0)
use unfold(fdefend(row(program), off(program) + len(program), len(program) - pc - 1, 0), 2) at head
use fdefskip(row(program), off(program) + len(program), len(program) - pc - 2, payload(row(program), off(program), pc+1)) at head
loop 3
invariant 0 <= prevEnd && prevEnd <= len(pCurrent)
loop 4
decreases max(end - i, 0)
invariant prevEnd <= i && end <= len(pCurrent)
loop 5
invariant prevEnd <= i && i <= end
loop 6
decreases end - i
invariant prevEnd <= firstTouched && firstTouched <= curTouched && curTouched < i && i <= end && firstTouched < end
loop 7
decreases h.gs.loop
invariant 0 <= h.gs.loop && h.gs.loop <= top && top <= len(h.stack)
loop 8
invariant 0 <= j
loop 9
invariant 0 <= j
loop 10
decreases h.gs.loop
invariant 0 <= h.gs.loop && h.gs.loop <= top && top <= len(h.stack)
loop 11
decreases h.gs.loop
invariant 0 <= h.gs.loop && h.gs.loop <= top && top <= len(h.stack)
loop 12
decreases h.gs.loop
invariant 0 <= h.gs.loop && h.gs.loop <= top && top <= len(h.stack)
loop 13
decreases max(len(program) - pc, 0)
invariant 0 <= pc && pc <= len(program) + 512
invariant[C09] 0 <= depth && depth <= pc
invariant[C09] condend(row(program), off(program) + len(program), len(program) - pc - 1, 0, depth, opcode) == condend(row(program), off(program) + len(program), len(program) - pre(pc) - 1, 0, 0, opcode)
use unfold(condend(row(program), off(program) + len(program), len(program) - pc - 1, 0, depth, opcode), 2) at head
use condskip(row(program), off(program) + len(program), len(program) - pc - 2, payload(row(program), off(program), pc+1), depth, opcode) at head
loop 14
invariant top <= len(h.stack) && 0 <= top && 2*n <= top
loop 15
decreases h.gs.loop
invariant 0 <= h.gs.loop && h.gs.loop <= top && top <= len(h.stack)
loop 16
decreases j - i
invariant 0 <= i && j < len(points)
loop 18
invariant 0 <= pc && pc + width*opcode <= len(program) && 0 <= top && top + opcode <= len(h.stack)
invariant[C09] pre(opcode) - opcode == top - pre(top) && 0 <= opcode && opcode <= pre(opcode) && (width == 1 || width == 2)
invariant[C09] (width == 1 ==> pc == pre(pc) + (top - pre(top))) && (width == 2 ==> pc == pre(pc) + 2*(top - pre(top)))
invariant[C09] (forall k int {h.stack[k]} :: 0 <= k && k < pre(top) ==> h.stack[k] == pre(h.stack[k]))
invariant[C09] width == 1 ==> (forall k int {h.stack[k]} :: pre(top) <= k && k < top ==> h.stack[k] == program[pre(pc)+(k-pre(top))])
invariant[C09] width == 2 ==> (forall k int {h.stack[k]} :: pre(top) <= k && k < top ==> h.stack[k] == s16(256*program[pre(pc)+2*(k-pre(top))] + program[pre(pc)+2*(k-pre(top))+1]))

// ---- a hinter between two loads
pred hinterinv(h *truetype.hinter) = sepok(h) && ref(h.points[0][0]) >= 0 && ref(h.points[0][1]) >= 0 && ref(h.points[0][2]) >= 0
  && (h.font != nil ==> fontok(h.font) && ref(h.functions) != 0 && gsok(h.defaultGS))

func truetype.resetTwilightPoints(f, p) (q)
props C08 C26
allocates
requires f != nil
modifies elems(p)
ensures len(q) == f.maxTwilightPoints + 4 && (ref(q) == ref(p) || fresh(q)) && (ref(p) >= 0 ==> ref(q) >= 0)
ensures[C26] forall k int {q[k].X} {q[k].Y} {q[k].Flags} :: 0 <= k && k < len(q) ==> q[k].X == 0 && q[k].Y == 0 && q[k].Flags == 0
loop 1
invariant len(p) == f.maxTwilightPoints + 4 && 0 <= iter(1)
invariant[C26] forall k int {p[k].X} {p[k].Y} {p[k].Flags} :: 0 <= k && k < iter(1) ==> p[k].X == 0 && p[k].Y == 0 && p[k].Flags == 0

// The default graphics state of the instruction set.
pred standard(g truetype.graphicsState) = g.pv[0] == 16384 && g.pv[1] == 0 && g.fv[0] == 16384 && g.fv[1] == 0 && g.dv[0] == 16384 && g.dv[1] == 0
  && g.rp[0] == 0 && g.rp[1] == 0 && g.rp[2] == 0 && g.zp[0] == 1 && g.zp[1] == 1 && g.zp[2] == 1
  && g.controlValueCutIn == 68 && g.singleWidthCutIn == 0 && g.singleWidth == 0 && g.deltaBase == 9 && g.deltaShift == 3 && g.minDist == 64 && g.loop == 1
  && g.roundPeriod == 64 && g.roundPhase == 0 && g.roundThreshold == 32 && !g.roundSuper45 && g.autoFlip

// Nothing is left of another font or scale.
pred clean(h *truetype.hinter) = !h.scaledCVTInitialized && standard(h.defaultGS)
  && (forall k int {haskey(h.functions, k)} :: !haskey(h.functions, k))
  && (forall k int {h.store[k]} :: 0 <= k && k < len(h.store) ==> h.store[k] == 0)

ghost gruns int

func truetype.(*hinter).init(h, f, scale) (err)
props C08 C26
split
allocates
requires f != nil && fontok(f) && hinterinv(h)
modifies h.font, h.scale, h.functions, h.stack, h.store, h.gs, h.defaultGS, h.points, h.ends, h.scaledCVTInitialized, h.scaledCVT, elems(h.scaledCVT), elems(h.stack), elems(h.store), elems(h.functions), elems(h.points[0][0]), elems(h.points[0][1]), elems(h.points[0][2]), gruns
ensures hinterinv(h)
ensures tag(err) == 0 ==> h.font == f && h.scale == scale
ensures tag(err) == 0 ==> len(h.points[0][0]) == f.maxTwilightPoints + 4 && len(h.points[0][1]) == f.maxTwilightPoints + 4 && len(h.points[0][2]) == f.maxTwilightPoints + 4
ensures[C26] tag(err) == 0 && (old(h.font) != f || old(h.scale) != scale) && gruns == old(gruns) ==> clean(h)
ensures (ref(h.stack) == old(ref(h.stack)) || fresh(h.stack)) && (ref(h.store) == old(ref(h.store)) || fresh(h.store)) && (ref(h.functions) == old(ref(h.functions)) || fresh(h.functions)) && (ref(h.scaledCVT) == old(ref(h.scaledCVT)) || fresh(h.scaledCVT))
ensures ref(h.points[0][0]) == old(ref(h.points[0][0])) || fresh(h.points[0][0])
ensures ref(h.points[0][1]) == old(ref(h.points[0][1])) || fresh(h.points[0][1])
ensures ref(h.points[0][2]) == old(ref(h.points[0][2])) || fresh(h.points[0][2])
loop 1
invariant[C26] forall k int {visited(1)[k]} {haskey(h.functions, k)} :: visited(1)[k] ==> !haskey(h.functions, k)
loop 2
invariant 0 <= iter(2)
invariant[C26] forall k int {h.store[k]} :: 0 <= k && k < iter(2) ==> h.store[k] == 0
oncall truetype.(*hinter).run
requires[C26] gruns == old(gruns) ==> clean(h) && h.font == f && h.scale == scale
set gruns = gruns + 1
