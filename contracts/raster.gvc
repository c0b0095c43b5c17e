// Contracts for raster/raster.go.

// ---- representation invariant of the cell lists
// Every list is strictly increasing in xi, with -1 <= xi <= width.
opaque listsok(H arr, h int, N arr, X arr, n int, w int) bool =
  (forall y int {H[y]} :: 0 <= y < h ==> -1 <= H[y] < n)
  && (forall c int {N[c]} {X[c]} :: 0 <= c < n ==> -1 <= N[c] < n && -1 <= X[c] <= w)
  && (forall c int {X[N[c]]} :: 0 <= c < n && N[c] != -1 ==> X[N[c]] > X[c])
pred shapeok(r *raster.Rasterizer) =
  r.width >= 0 && r.width <= 1048576
  && (len(r.cellIndex) > 0 ==> cap(r.cell) > 0)
  && ref(r.cell) != ref(r.cellIndex) && ref(r.cell) != 0 && off(r.cell) == 0 && off(r.cellIndex) == 0
pred cellsok(r *raster.Rasterizer) = shapeok(r) && listsok(row(r.cellIndex), len(r.cellIndex), row(r.cell,next), row(r.cell,xi), len(r.cell), r.width)

// ---- C12: the conversion of an area (twice 4096 is full coverage) to a 16-bit alpha.
def half(area int) int = abs(div(area+1, 2))
def coverage(nz bool, a int) int = nz ? min(a, 4095) : (mod(a,8192) > 4096 ? 8192 - mod(a,8192) : min(mod(a,8192), 4095))
def alphaof(nz bool, area int) int = 16*coverage(nz, half(area)) + div(coverage(nz, half(area)), 256)

func raster.(*Rasterizer).areaToAlpha(r, area) (alpha)
props C12 C10
ensures[C12 C10] 0 <= alpha <= 65535
ensures[C12] -8589934592 < area < 8589934590 ==> alpha == alphaof(r.UseNonZeroWinding, area)

lemma[C12] nocoverage(nz bool)
ensures alphaof(nz, 0) == 0

lemma[C12] fullcoverage(nz bool)
ensures alphaof(nz, 8192) == 65535 && alphaof(nz, -8192) == 65535

lemma[C12] neverexceeds(nz bool, area int)
ensures 0 <= alphaof(nz, area) && alphaof(nz, area) <= 65535

// opposite orientations differ by the rounding of one unit of area only
lemma[C12] symmetric(nz bool, area int)
ensures alphaof(nz, area) == alphaof(nz, -1 - area) || abs(area) > 9007199254740992
ensures half(-area) == half(area) || mod(area,2) == 1 && abs(half(-area) - half(area)) == 1
ensures mod(area,2) == 0 ==> alphaof(nz, area) == alphaof(nz, -area)

lemma[C12] monotone(a int, b int)
requires 0 <= a && a <= b
ensures alphaof(true, a) <= alphaof(true, b)
ensures a >= 8189 ==> alphaof(true, a) == 65535

lemma[C12] periodic(a int)
requires a >= 0
ensures alphaof(false, a + 16384) == alphaof(false, a)

lemma[C12] peak(a int, b int)
requires 0 <= a && a <= b
ensures b <= 8192 ==> alphaof(false, a) <= alphaof(false, b)
ensures 8192 <= a && b <= 16384 ==> alphaof(false, a) >= alphaof(false, b)

// between none and full coverage alpha is the coverage in 12 bits, repeated into 16
lemma[C12] proportional(nz bool, a int)
requires 0 <= a && a < 8191
ensures div(alphaof(nz, a), 16) == div(a+1, 2)

// ---- C11: what the cell lists hold
// cellrow[c] is the row whose list cell c is in. Every cell is in the list of its row, at its place.
ghost cellrow arr
opaque placesok(H arr, h int, N arr, X arr, n int, R arr) bool =
  (forall y int {H[y]} :: 0 <= y < h && H[y] != -1 ==> R[H[y]] == y)
  && (forall c int {R[c]} :: 0 <= c < n ==> 0 <= R[c] && R[c] < h)
  && (forall c int {R[N[c]]} :: 0 <= c < n && N[c] != -1 ==> R[N[c]] == R[c])
  && (forall y int, c int {H[y], R[c]} :: 0 <= c < n && R[c] == y ==> H[y] != -1 && X[H[y]] <= X[c])
  && (forall c int, d int {R[c], R[d]} :: 0 <= c < n && 0 <= d < n && R[c] == R[d] ==>
        (X[c] == X[d] ==> c == d) && (X[c] < X[d] ==> N[c] != -1 && X[N[c]] <= X[d]))
pred rowsok(r *raster.Rasterizer) = placesok(row(r.cellIndex), len(r.cellIndex), row(r.cell,next), row(r.cell,xi), len(r.cell), cellrow)

// gx, gy is any pixel of the image, or the column left or right of it; gc is its cell, or -1.
ghost gx int
ghost gy int
ghost gc int
def column(r *raster.Rasterizer, xi int) int = max(-1, min(xi, r.width))
opaque nocell(R arr, X arr, n int, x int, y int) bool = forall c int {R[c]} :: 0 <= c < n ==> R[c] != y || X[c] != x
pred keyok(r *raster.Rasterizer) = -1 <= gx && gx <= r.width && 0 <= gy && gy < len(r.cellIndex) && -1 <= gc && gc < len(r.cell)
  && (gc != -1 ==> cellrow[gc] == gy && r.cell[gc].xi == gx)
  && (gc == -1 ==> nocell(cellrow, row(r.cell,xi), len(r.cell), gx, gy))
pred here(r *raster.Rasterizer) = r.yi == gy && column(r, r.xi) == gx
// the cover and area that have been added to that pixel so far (modulo 2^64)
def gcover(r *raster.Rasterizer) int = int64((gc == -1 ? 0 : r.cell[gc].cover) + (here(r) ? r.cover : 0))
def garea(r *raster.Rasterizer) int = int64((gc == -1 ? 0 : r.cell[gc].area) + (here(r) ? r.area : 0))

// ---- C14: an empty rasterizer
pred emptyr(r *raster.Rasterizer) = r.area == 0 && r.cover == 0 && len(r.cell) == 0 && (forall y int {r.cellIndex[y]} :: 0 <= y && y < len(r.cellIndex) ==> r.cellIndex[y] == -1)
pred penless(r *raster.Rasterizer) = r.a.X == 0 && r.a.Y == 0 && r.xi == 0 && r.yi == 0
def scale2(w int, h int) int = w > 120 || h > 120 ? 128 : (w > 24 || h > 24 ? 64 : 32)

func raster.(*Rasterizer).findCell(r) (i)
props C10 C11 C14
use cellsok(r) at entry
use rowsok(r) at entry
use keyok(r) at entry
use cellsok(r)
use rowsok(r)
use keyok(r)
opt bigalloc
allocates
requires cellsok(r)
requires[C11] rowsok(r) && keyok(r)
modifies r.cell, elems(r.cell), elems(r.cellIndex), cellrow, gc
set cellrow = i != -1 && len(r.cell) > old(len(r.cell)) ? upd(cellrow, i, r.yi) : cellrow
set gc = i != -1 && len(r.cell) > old(len(r.cell)) && here(r) ? i : gc
ensures cellsok(r)
ensures -1 <= i < len(r.cell)
ensures i == -1 <==> !(0 <= r.yi < len(r.cellIndex))
ensures i != -1 ==> r.cell[i].xi == column(r, r.xi)
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures len(r.cell) >= old(len(r.cell))
ensures[C11] rowsok(r) && keyok(r)
ensures[C11] i != -1 ==> cellrow[i] == r.yi && (here(r) ? gc == i : gc != i)
ensures[C11] gc == -1 ? old(gc) == -1 : gc == old(gc) || old(gc) == -1 && gc == i && gc >= old(len(r.cell))
ensures[C11] forall c int {r.cell[c].area} {r.cell[c].cover} :: 0 <= c < len(r.cell) ==> r.cell[c].area == (c < old(len(r.cell)) ? old(r.cell[c].area) : 0) && r.cell[c].cover == (c < old(len(r.cell)) ? old(r.cell[c].cover) : 0)
loop 1
invariant -1 <= i < len(r.cell) && -1 <= prev < len(r.cell)
invariant prev == -1 ==> i == r.cellIndex[r.yi]
invariant prev != -1 ==> r.cell[prev].next == i && r.cell[prev].xi < xi
invariant[C11] (prev != -1 ==> cellrow[prev] == r.yi) && (i != -1 ==> cellrow[i] == r.yi)
decreases (i == -1 ? 0 : r.width + 2 - r.cell[i].xi)

func raster.(*Rasterizer).saveCell(r)
split
props C10 C11 C14
allocates
requires cellsok(r)
requires[C11] rowsok(r) && keyok(r)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures[C14] old(emptyr(r)) ==> emptyr(r)
ensures cellsok(r) && r.area == 0 && r.cover == 0
ensures[C11] rowsok(r) && keyok(r) && gcover(r) == old(gcover(r)) && garea(r) == old(garea(r))

func raster.(*Rasterizer).setCell(r, xi, yi)
split
props C10 C11 C14
allocates
requires cellsok(r)
requires[C11] rowsok(r) && keyok(r)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r) && r.xi == xi && r.yi == yi
ensures[C11] rowsok(r) && keyok(r) && gcover(r) == old(gcover(r)) && garea(r) == old(garea(r))

// ---- C11: one scanline. The line from (x0, y0) to (x0+dx, y0+dy) crosses the left edge of column j
// edge(x0, dx, dy, j) above y0, rounded down.
opaque edge(x0 int, dx int, dy int, j int) int = dx > 0 ? div((64*j - x0)*dy, dx) : div((x0 - 64*j)*dy, -dx)
// the cover it has in the columns before j
def below(x0 int, x1 int, dy int, j int) int = dy == 0 ? 0 : div(x0,64) == div(x1,64) ? (j > div(x0,64) ? dy : 0)
  : (x1 > x0 ? (j <= div(x0,64) ? 0 : (j > div(x1,64) ? dy : edge(x0, x1-x0, dy, j)))
             : (j > div(x0,64) ? dy : (j <= div(x1,64) ? 0 : dy - edge(x0, x1-x0, dy, j))))
// its cover and area in column g of an image w pixels wide; all that is left of the image counts as column -1, what is right of it as w
opaque scancover(w int, x0 int, x1 int, dy int, g int) int = (g == w ? dy : below(x0,x1,dy,g+1)) - (g == -1 ? 0 : below(x0,x1,dy,g))
opaque prod(a int, b int) int = a*b
def frac(x int) int = x - 64*div(x,64)
def enters(x0 int, x1 int, g int) int = g == div(x0,64) ? frac(x0) : (x1 > x0 ? 0 : 64)
def leaves(x0 int, x1 int, g int) int = g == div(x1,64) ? frac(x1) : (x1 > x0 ? 64 : 0)
opaque scanarea(w int, x0 int, x1 int, dy int, g int) int = prod(enters(x0,x1,g) + leaves(x0,x1,g), scancover(w,x0,x1,dy,g))

pred small(v int) = -16777216 < v && v < 16777216

// the part of it in the columns that have been done, which are those before column xi, or those after it
opaque donecover(w int, x0 int, x1 int, dy int, xi int, g int) int = x1 > x0
  ? (g == w ? below(x0,x1,dy,xi) : below(x0,x1,dy,min(g+1,xi))) - (g == -1 ? 0 : below(x0,x1,dy,min(g,xi)))
  : (g == w ? dy : below(x0,x1,dy,max(g+1,xi+1))) - (g == -1 ? below(x0,x1,dy,xi+1) : below(x0,x1,dy,max(g,xi+1)))
opaque donearea(w int, x0 int, x1 int, dy int, xi int, g int) int = (x1 > x0 ? g < xi : g > xi) ? prod(enters(x0,x1,g) + leaves(x0,x1,g), donecover(w,x0,x1,dy,xi,g)) : 0

def clampto(w int, xi int) int = max(-1, min(xi, w))
def ahead(x0 int, x1 int, xi int) int = x1 > x0 ? xi : xi+1

lemma coverfirst(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && dy != 0 && -1 <= g && g <= w && div(x0,64) != div(x1,64)
use unfold(donecover(w,x0,x1,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)-1, g), 1)
ensures donecover(w,x0,x1,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)-1, g) == (clampto(w,div(x0,64)) == g ? edge(x0,x1-x0,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)) : 0)

lemma coverstep(w int, x0 int, x1 int, dy int, xi int, g int)
requires w >= 0 && dy != 0 && -1 <= g && g <= w && (x1 > x0 ? div(x0,64) < xi && xi < div(x1,64) : div(x1,64) < xi && xi < div(x0,64))
use unfold(donecover(w,x0,x1,dy, x1 > x0 ? xi+1 : xi-1, g), 1)
use unfold(donecover(w,x0,x1,dy,xi,g), 1)
ensures donecover(w,x0,x1,dy, x1 > x0 ? xi+1 : xi-1, g) == donecover(w,x0,x1,dy,xi,g) + (clampto(w,xi) == g ? edge(x0,x1-x0,dy, x1 > x0 ? xi+1 : xi) - edge(x0,x1-x0,dy, x1 > x0 ? xi : xi+1) : 0)

lemma coverlast(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && dy != 0 && -1 <= g && g <= w && div(x0,64) != div(x1,64)
use unfold(scancover(w,x0,x1,dy,g), 1)
use unfold(donecover(w,x0,x1,dy,div(x1,64),g), 1)
ensures scancover(w,x0,x1,dy,g) == donecover(w,x0,x1,dy,div(x1,64),g) + (clampto(w,div(x1,64)) == g ? dy - edge(x0,x1-x0,dy, x1 > x0 ? div(x1,64) : div(x1,64)+1) : 0)

lemma coverone(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && -1 <= g && g <= w && (dy == 0 || div(x0,64) == div(x1,64))
use unfold(scancover(w,x0,x1,dy,g), 1)
ensures scancover(w,x0,x1,dy,g) == (clampto(w,div(x1,64)) == g ? dy : 0)

lemma areafirst(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && dy != 0 && 0 <= g && g < w && div(x0,64) != div(x1,64)
use coverfirst(w, x0, x1, dy, g)
use unfold(donearea(w,x0,x1,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)-1, g), 3)
use prod(frac(x0) + (x1 > x0 ? 64 : 0), edge(x0,x1-x0,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)))
ensures donearea(w,x0,x1,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64)-1, g) == (div(x0,64) == g ? prod(frac(x0) + (x1 > x0 ? 64 : 0), edge(x0,x1-x0,dy, x1 > x0 ? div(x0,64)+1 : div(x0,64))) : 0)

lemma areastep(w int, x0 int, x1 int, dy int, xi int, g int)
requires w >= 0 && dy != 0 && 0 <= g && g < w && (x1 > x0 ? div(x0,64) < xi && xi < div(x1,64) : div(x1,64) < xi && xi < div(x0,64))
use unfold(donearea(w,x0,x1,dy, x1 > x0 ? xi+1 : xi-1, g), 3)
use unfold(donearea(w,x0,x1,dy,xi,g), 3)
ensures donearea(w,x0,x1,dy, x1 > x0 ? xi+1 : xi-1, g) == donearea(w,x0,x1,dy,xi,g) + (xi == g ? 64*(edge(x0,x1-x0,dy, x1 > x0 ? xi+1 : xi) - edge(x0,x1-x0,dy, x1 > x0 ? xi : xi+1)) : 0)

lemma arealast(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && dy != 0 && 0 <= g && g < w && div(x0,64) != div(x1,64)
use unfold(scanarea(w,x0,x1,dy,g), 2)
use unfold(donearea(w,x0,x1,dy,div(x1,64),g), 3)
use prod(frac(x1) + (x1 > x0 ? 0 : 64), dy - edge(x0,x1-x0,dy, x1 > x0 ? div(x1,64) : div(x1,64)+1))
ensures scanarea(w,x0,x1,dy,g) == donearea(w,x0,x1,dy,div(x1,64),g) + (div(x1,64) == g ? prod(frac(x1) + (x1 > x0 ? 0 : 64), dy - edge(x0,x1-x0,dy, x1 > x0 ? div(x1,64) : div(x1,64)+1)) : 0)

lemma areaone(w int, x0 int, x1 int, dy int, g int)
requires w >= 0 && 0 <= g && g < w && (dy == 0 || div(x0,64) == div(x1,64))
use coverone(w, x0, x1, dy, g)
use unfold(scanarea(w,x0,x1,dy,g), 3)
use prod(frac(x0) + frac(x1), dy)
ensures scanarea(w,x0,x1,dy,g) == (div(x1,64) == g ? prod(frac(x0) + frac(x1), dy) : 0)

lemma edgeis(x0 int, dx int, dy int, j int, y int, rem int)
requires dx != 0 && 0 <= rem && rem < abs(dx) && abs(dx)*y + rem == (dx > 0 ? (64*j - x0)*dy : (x0 - 64*j)*dy)
use unfold(edge(x0, dx, dy, j), 1)
ensures y == edge(x0, dx, dy, j)

lemma mulbetween(a int, b int, c int)
requires 0 <= a && a <= b
ensures c >= 0 ==> 0 <= a*c && a*c <= b*c
ensures c <= 0 ==> b*c <= a*c && a*c <= 0

lemma divbound(q int, d int, rem int, n int)
requires q >= 1 && 0 <= rem && rem < q && q*d + rem == n
ensures n >= 0 ? 0 <= d && d <= n : n <= d && d < 0

// a crossing is between the end points
lemma edgebetween(x0 int, dx int, dy int, j int)
requires dx > 0 ? x0 <= 64*j && 64*j <= x0+dx : x0+dx <= 64*j && 64*j <= x0
requires dx != 0
use unfold(edge(x0, dx, dy, j), 1)
use mulbetween(dx > 0 ? 64*j - x0 : x0 - 64*j, abs(dx), dy)
ensures dy >= 0 ? 0 <= edge(x0, dx, dy, j) && edge(x0, dx, dy, j) <= dy : dy <= edge(x0, dx, dy, j) && edge(x0, dx, dy, j) <= 0

lemma prodis(a int, b int)
requires 0 <= a && a <= 128 && -4096 <= b && b <= 4096
use prod(a, b)
use mulbetween(a, 128, b)
ensures prod(a, b) == a*b && -524288 <= prod(a, b) && prod(a, b) <= 524288

func raster.(*Rasterizer).scan(r, yi, x0, y0f, x1, y1f)
props C10 C11 C13 C14
noterm C10 C14 C19 C21 C22 C23 C24
allocates
requires cellsok(r)
requires[C11 C13] small(x0) && small(x1) && 0 <= y0f && y0f <= 64 && 0 <= y1f && y1f <= 64
requires[C11] rowsok(r) && keyok(r) && r.xi == div(x0,64) && r.yi == yi
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r)
ensures[C11] rowsok(r) && keyok(r) && r.xi == div(x1,64) && r.yi == yi
ensures[C11] gcover(r) == int64(old(gcover(r)) + (yi == gy ? scancover(r.width, x0, x1, y1f-y0f, gx) : 0))
ensures[C11] garea(r) == int64(old(garea(r)) + (yi == gy && 0 <= gx && gx < r.width ? scanarea(r.width, x0, x1, y1f-y0f, gx) : 0)) || gx == -1 || gx == r.width
use prodis(frac(x1) + (x1 > x0 ? 0 : 64), y1f-y)
use prodis(frac(x0) + frac(x1), y1f-y0f)
hint[C11] y1f-y == y1f-y0f-edge(x0, x1-x0, y1f-y0f, x1 > x0 ? div(x1,64) : div(x1,64)+1)
hint[C11] int32((edge0 + x1f)*yDelta) == prod(frac(x1) + (x1 > x0 ? 0 : 64), y1f-y0f-edge(x0, x1-x0, y1f-y0f, x1 > x0 ? div(x1,64) : div(x1,64)+1))
use coverone(r.width, x0, x1, y1f-y0f, gx)
use areaone(r.width, x0, x1, y1f-y0f, gx)
use edgebetween(x0, x1-x0, y1f-y0f, x1 > x0 ? div(x1,64) : div(x1,64)+1)
use coverlast(r.width, x0, x1, y1f-y0f, gx)
use arealast(r.width, x0, x1, y1f-y0f, gx)
loop 1
cut
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r)
invariant[C11 C13] xiDelta == (x1 > x0 ? 1 : -1) && q == abs(x1-x0) && x0i == div(x0,64) && x1i == div(x1,64)
invariant[C11 C13] x1 > x0 ? x0i < xi && xi <= x1i : x1i <= xi && xi < x0i
invariant[C11] rowsok(r) && keyok(r) && r.xi == xi && r.yi == yi && dy == y1f - y0f
invariant[C11] q*fullDelta + fullRem == 64*dy && 0 <= fullRem && fullRem < q
invariant[C11] -q <= yRem && yRem < 0 && q*(y - y0f) + yRem + q == (x1 > x0 ? (64*xi - x0)*dy : (x0 - 64*(xi+1))*dy)
invariant[C11] -4096 <= fullDelta && fullDelta <= 4096
invariant[C11] dy > 0 ? 0 <= y - y0f && y - y0f <= dy : dy <= y - y0f && y - y0f <= 0
invariant[C11] y - y0f == edge(x0, x1-x0, dy, x1 > x0 ? xi : xi+1)
invariant[C11] gcover(r) == int64(old(gcover(r)) + (yi == gy ? donecover(r.width, x0, x1, dy, xi, gx) : 0))
invariant[C11] garea(r) == int64(old(garea(r)) + (yi == gy && 0 <= gx && gx < r.width ? donearea(r.width, x0, x1, dy, xi, gx) : 0)) || gx == -1 || gx == r.width
decreases abs(x1i - xi)
use edgeis(x0, x1-x0, dy, x1 > x0 ? xi : xi+1, y-y0f, yRem+q) at end
use edgebetween(x0, x1-x0, dy, x1 > x0 ? xi : xi+1) at end
use divbound(q, fullDelta, fullRem, 64*dy) at init
oncall raster.(*Rasterizer).setCell(r0, xi1, yi1)
use edgeis(x0, x1-x0, y1f-y0f, x1 > x0 ? xi1 : xi1+1, y-y0f, xi1 == x0i + (x1 > x0 ? 1 : -1) ? yRem : yRem+q)
use edgebetween(x0, x1-x0, y1f-y0f, x1 > x0 ? xi1 : xi1+1)
hint[C11] y-y0f == edge(x0, x1-x0, y1f-y0f, x1 > x0 ? xi1 : xi1+1)
use prodis(frac(x0) + (x1 > x0 ? 64 : 0), y-y0f)
use coverfirst(r.width, x0, x1, y1f-y0f, gx)
use areafirst(r.width, x0, x1, y1f-y0f, gx)
use coverstep(r.width, x0, x1, y1f-y0f, x1 > x0 ? xi1-1 : xi1+1, gx)
use areastep(r.width, x0, x1, y1f-y0f, x1 > x0 ? xi1-1 : xi1+1, gx)
requires[C11] y0f != y1f && xi1 == x0i + (x1 > x0 ? 1 : -1) ==> r.area == int64(old(r.area) + prod(frac(x0) + (x1 > x0 ? 64 : 0), edge(x0, x1-x0, y1f-y0f, x1 > x0 ? xi1 : xi1+1)))
requires[C11] y0f != y1f ==> gcover(r) == int64(old(gcover(r)) + (yi == gy ? donecover(r.width, x0, x1, y1f-y0f, xi1, gx) : 0))
requires[C11] y0f != y1f ==> garea(r) == int64(old(garea(r)) + (yi == gy && 0 <= gx && gx < r.width ? donearea(r.width, x0, x1, y1f-y0f, xi1, gx) : 0)) || gx == -1 || gx == r.width

// ---- C11: one line, from (x0, y0) to (x1, y1). It crosses the top edge of row j at
def crossing(x0 int, y0 int, x1 int, y1 int, j int) int = x0 + edge(y0, y1-y0, x1-x0, j)
// Where it enters and leaves row g, which it crosses:
def rowx0(x0 int, y0 int, x1 int, y1 int, g int) int = g == div(y0,64) ? x0 : crossing(x0,y0,x1,y1, y1 > y0 ? g : g+1)
def rowx1(x0 int, y0 int, x1 int, y1 int, g int) int = g == div(y1,64) ? x1 : crossing(x0,y0,x1,y1, y1 > y0 ? g+1 : g)
def rowy0(y0 int, y1 int, g int) int = g == div(y0,64) ? frac(y0) : (y1 > y0 ? 0 : 64)
def rowy1(y0 int, y1 int, g int) int = g == div(y1,64) ? frac(y1) : (y1 > y0 ? 64 : 0)
def crosses(y0 int, y1 int, g int) bool = min(div(y0,64), div(y1,64)) <= g && g <= max(div(y0,64), div(y1,64))
opaque linecover(w int, x0 int, y0 int, x1 int, y1 int, x int, y int) int = crosses(y0,y1,y) ? scancover(w, rowx0(x0,y0,x1,y1,y), rowx1(x0,y0,x1,y1,y), rowy1(y0,y1,y) - rowy0(y0,y1,y), x) : 0
opaque linearea(w int, x0 int, y0 int, x1 int, y1 int, x int, y int) int = crosses(y0,y1,y) ? scanarea(w, rowx0(x0,y0,x1,y1,y), rowx1(x0,y0,x1,y1,y), rowy1(y0,y1,y) - rowy0(y0,y1,y), x) : 0

// the vertical extent of a line in a row depends on its end points only, so those of a closed curve add up to zero
def height(v int, g int) int = max(0, min(64, v - 64*g))
lemma[C11] extent(y0 int, y1 int, g int)
ensures (crosses(y0,y1,g) ? rowy1(y0,y1,g) - rowy0(y0,y1,g) : 0) == height(y1, g) - height(y0, g)
ensures !crosses(y0,y1,g) ==> height(y1, g) == height(y0, g)

func raster.(*Rasterizer).Start(r, a)
props C10 C11 C13 C14
allocates
requires cellsok(r)
requires[C11] rowsok(r) && keyok(r)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r) && r.a.X == a.X && r.a.Y == a.Y
ensures[C11] rowsok(r) && keyok(r) && r.xi == div(a.X,64) && r.yi == div(a.Y,64)
ensures[C11] gcover(r) == old(gcover(r)) && garea(r) == old(garea(r))

lemma edgezero(x0 int, dx int, j int)
requires dx != 0
use edge(x0, dx, 0, j)
ensures edge(x0, dx, 0, j) == 0

lemma edgesmall(x0 int, dx int, dy int, j int)
requires dx > 0 ? x0 <= 64*j && 64*j <= x0+dx : x0+dx <= 64*j && 64*j <= x0
requires dx != 0
use edgebetween(x0, dx, dy, j)
ensures min(0, dy) <= edge(x0, dx, dy, j) && edge(x0, dx, dy, j) <= max(0, dy)

lemma notcrossed(w int, x0 int, y0 int, x1 int, y1 int, x int, y int)
requires !crosses(y0,y1,y)
use linecover(w,x0,y0,x1,y1,x,y)
use linearea(w,x0,y0,x1,y1,x,y)
ensures linecover(w,x0,y0,x1,y1,x,y) == 0 && linearea(w,x0,y0,x1,y1,x,y) == 0

lemma crossed(w int, x0 int, y0 int, x1 int, y1 int, x int, y int, xa int, xb int, dy int)
requires crosses(y0,y1,y) && xa == rowx0(x0,y0,x1,y1,y) && xb == rowx1(x0,y0,x1,y1,y) && dy == rowy1(y0,y1,y) - rowy0(y0,y1,y)
use linecover(w,x0,y0,x1,y1,x,y)
use linearea(w,x0,y0,x1,y1,x,y)
ensures linecover(w,x0,y0,x1,y1,x,y) == scancover(w, xa, xb, dy, x) && linearea(w,x0,y0,x1,y1,x,y) == scanarea(w, xa, xb, dy, x)

lemma vertical(w int, x0 int, y0 int, x1 int, y1 int, x int, y int)
requires w >= 0 && -1 <= x && x <= w && x0 == x1 && crosses(y0,y1,y) && y0 != y1
use crossed(w, x0, y0, x1, y1, x, y, x0, x0, rowy1(y0,y1,y) - rowy0(y0,y1,y))
use edgezero(y0, y1-y0, y)
use edgezero(y0, y1-y0, y+1)
use coverone(w, x0, x0, rowy1(y0,y1,y) - rowy0(y0,y1,y), x)
use areaone(w, x0, x0, rowy1(y0,y1,y) - rowy0(y0,y1,y), x)
ensures linecover(w,x0,y0,x1,y1,x,y) == (clampto(w,div(x0,64)) == x ? rowy1(y0,y1,y) - rowy0(y0,y1,y) : 0)
ensures 0 <= x && x < w ==> linearea(w,x0,y0,x1,y1,x,y) == (div(x0,64) == x ? prod(2*frac(x0), rowy1(y0,y1,y) - rowy0(y0,y1,y)) : 0)

def isdonerow(y0 int, y1 int, yi int, g int) bool = y1 > y0 ? g < yi : g > yi
func raster.(*Rasterizer).Add1(r, b)
props C10 C11 C13 C14
split
noterm C10 C14 C19 C21 C22 C23 C24
allocates
requires cellsok(r)
requires[C11 C13] small(r.a.X) && small(r.a.Y) && small(b.X) && small(b.Y)
requires[C11] rowsok(r) && keyok(r) && r.xi == div(r.a.X,64) && r.yi == div(r.a.Y,64)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r) && r.a.X == b.X && r.a.Y == b.Y
ensures[C11] rowsok(r) && keyok(r) && r.xi == div(b.X,64) && r.yi == div(b.Y,64)
ensures[C11] gcover(r) == int64(old(gcover(r)) + linecover(r.width, old(r.a.X), old(r.a.Y), b.X, b.Y, gx, gy))
ensures[C11] garea(r) == int64(old(garea(r)) + (0 <= gx && gx < r.width ? linearea(r.width, old(r.a.X), old(r.a.Y), b.X, b.Y, gx, gy) : 0)) || gx == -1 || gx == r.width
use notcrossed(r.width, x0, y0, x1, y1, gx, gy)
use crossed(r.width, x0, y0, x1, y1, gx, gy, x0, x1, frac(y1)-frac(y0))
use crossed(r.width, x0, y0, x1, y1, gx, gy, x, x1, rowy1(y0,y1,gy)-rowy0(y0,y1,gy))
use vertical(r.width, x0, y0, x1, y1, gx, gy)
use prodis(2*frac(x0), rowy1(y0,y1,y1i)-rowy0(y0,y1,y1i))
loop 1
cut
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r)
invariant[C11 C13] yiDelta == (y1 > y0 ? 1 : -1) && y1i == div(y1,64) && y0i == div(y0,64)
invariant[C11 C13] y1 > y0 ? y0i < yi && yi <= y1i : y1i <= yi && yi < y0i
invariant[C11] rowsok(r) && keyok(r) && r.xi == div(x0,64) && r.yi == yi
invariant[C11] dcover == (y1 > y0 ? 64 : -64) && darea == prod(2*frac(x0), dcover) && -524288 <= darea && darea <= 524288
invariant[C11] gcover(r) == int64(old(gcover(r)) + (isdonerow(y0,y1,yi,gy) ? linecover(r.width, x0, y0, x1, y1, gx, gy) : 0))
invariant[C11] garea(r) == int64(old(garea(r)) + (isdonerow(y0,y1,yi,gy) && 0 <= gx && gx < r.width ? linearea(r.width, x0, y0, x1, y1, gx, gy) : 0)) || gx == -1 || gx == r.width
use notcrossed(r.width, x0, y0, x1, y1, gx, gy) at init
use prodis(2*frac(x0), dcover) at init
use prodis(2*frac(x0), rowy1(y0,y1,y0i)-rowy0(y0,y1,y0i)) at init
use vertical(r.width, x0, y0, x1, y1, gx, gy) at init
use vertical(r.width, x0, y0, x1, y1, gx, gy) at end
decreases abs(y1i - yi)
loop 2
cut
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r)
invariant[C11 C13] yiDelta == (y1 > y0 ? 1 : -1) && y1i == div(y1,64) && y0i == div(y0,64) && edge0 == (y1 > y0 ? 0 : 64) && edge1 == (y1 > y0 ? 64 : 0)
invariant[C11 C13] y1 > y0 ? y0i < yi && yi <= y1i : y1i <= yi && yi < y0i
invariant[C11 C13] q == abs(y1-y0) && q*fullDelta + fullRem == 64*(x1-x0) && 0 <= fullRem && fullRem < q
invariant[C11 C13] -2147483520 <= fullDelta && fullDelta <= 2147483520
invariant[C11 C13] -q <= xRem && xRem < 0 && q*(x - x0) + xRem + q == (y1 > y0 ? (64*yi - y0)*(x1-x0) : (y0 - 64*(yi+1))*(x1-x0))
invariant[C11 C13] min(x0,x1) <= x && x <= max(x0,x1)
invariant[C11 C13] x - x0 == edge(y0, y1-y0, x1-x0, y1 > y0 ? yi : yi+1)
invariant[C11] rowsok(r) && keyok(r) && r.xi == div(x,64) && r.yi == yi
invariant[C11] gcover(r) == int64(old(gcover(r)) + (isdonerow(y0,y1,yi,gy) ? linecover(r.width, x0, y0, x1, y1, gx, gy) : 0))
invariant[C11] garea(r) == int64(old(garea(r)) + (isdonerow(y0,y1,yi,gy) && 0 <= gx && gx < r.width ? linearea(r.width, x0, y0, x1, y1, gx, gy) : 0)) || gx == -1 || gx == r.width
use divbound(q, fullDelta, fullRem, 64*(x1-x0)) at init
use notcrossed(r.width, x0, y0, x1, y1, gx, gy) at init
decreases abs(y1i - yi)
oncall raster.(*Rasterizer).setCell(r0, xi1, yi1)
use prodis(2*frac(x0), rowy1(y0,y1,y0i)-rowy0(y0,y1,y0i))
hint[C11] x0 == x1 && yi1 == y0i + (y1 > y0 ? 1 : -1) ==> r.area == int64(old(r.area) + prod(2*frac(x0), rowy1(y0,y1,y0i)-rowy0(y0,y1,y0i)))
oncall raster.(*Rasterizer).scan(r0, yi1, xa, ya, xb, yb)
use edgeis(y0, y1-y0, x1-x0, y1 > y0 ? yi1+1 : yi1, x+xDelta-x0, yi1 == y0i ? xRem : xRem+q)
use edgesmall(y0, y1-y0, x1-x0, y1 > y0 ? yi1+1 : yi1)
hint[C11 C13] yi1 != y1i ==> x+xDelta-x0 == edge(y0, y1-y0, x1-x0, y1 > y0 ? yi1+1 : yi1)
hint[C11 C13] xa == rowx0(x0,y0,x1,y1,yi1) && xb == rowx1(x0,y0,x1,y1,yi1)
hint[C11] ya == rowy0(y0,y1,yi1) && yb == rowy1(y0,y1,yi1)
use crossed(r.width, x0, y0, x1, y1, gx, yi1, xa, xb, yb-ya)

// ---- C13: curves
func raster.maxAbs(a, b) (m)
props C10 C13
pure
ensures a != -2147483648 && b != -2147483648 ==> m == max(abs(a), abs(b))

pred scaleok(r *raster.Rasterizer) = 1 <= r.splitScale2 && r.splitScale2 <= 128 && 1 <= r.splitScale3 && r.splitScale3 <= 64

def devlimit(n int) int = n == 0 ? 2147483648 : (n == 1 ? 536870912 : (n == 2 ? 134217728 : (n == 3 ? 33554432 : (n == 4 ? 8388608 : (n == 5 ? 2097152 : (n == 6 ? 524288 : (n == 7 ? 131072 : (n == 8 ? 32768 : (n == 9 ? 8192 : (n == 10 ? 2048 : (n == 11 ? 512 : (n == 12 ? 128 : (n == 13 ? 32 : (n == 14 ? 8 : (n == 15 ? 2 : 1)))))))))))))))

extern strconv.Itoa(i) (s)
ensures len(s) >= 0

spec two(n int) int = n <= 0 ? 1 : 2*two(n-1)
lemma twopos(n int)
induct n
use twopos(n-1)
ensures two(n) >= 1
// weight is the number of Add1 pairs and splits that n curves still need, when curve k is to be split S[k] times
spec weight(S arr, n int) int = n <= 0 ? 0 : weight(S, n-1) + 2*two(S[n-1]) - 1
lemma weightpos(S arr, n int)
induct n
use weightpos(S, n-1)
use twopos(S[n-1])
ensures weight(S, n) >= 0
lemma weightsame(S arr, T arr, n int)
requires forall k int {T[k]} :: 0 <= k && k < n ==> T[k] == S[k]
induct n
use weightsame(S, T, n-1)
ensures weight(T, n) == weight(S, n)

pred between(v int, a int, b int, c int) = min(a, min(b, c)) <= v && v <= max(a, max(b, c))
pred inside(X arr, n int, lo int, hi int) = forall k int {X[k]} :: 0 <= k && k < n ==> lo <= X[k] && X[k] <= hi
def lo3(a int, b int, c int) int = min(a, min(b, c))
def hi3(a int, b int, c int) int = max(a, max(b, c))

func raster.(*Rasterizer).Add2(r, b, c)
props C10 C13
noterm C10 C19 C21 C22 C23 C24
allocates
requires cellsok(r) && scaleok(r)
requires[C13] small(r.a.X) && small(r.a.Y) && small(b.X) && small(b.Y) && small(c.X) && small(c.Y)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r) && r.a.X == c.X && r.a.Y == c.Y
loop 1
invariant 0 <= nsplit && nsplit <= 16 && dev < devlimit(nsplit)
decreases dev
loop 2
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r)
invariant -1 <= i && 0 <= nsplit && nsplit <= 16
invariant forall k int {row(sStack)[k]} :: 0 <= k && k <= i ==> 0 <= row(sStack)[k] && row(sStack)[k] + k <= nsplit
invariant row(pStack,X)[0] == c.X && row(pStack,Y)[0] == c.Y
invariant i == -1 ==> r.a.X == c.X && r.a.Y == c.Y
invariant[C13] inside(row(pStack,X), 2*i+3, lo3(old(r.a.X),b.X,c.X), hi3(old(r.a.X),b.X,c.X))
invariant[C13] inside(row(pStack,Y), 2*i+3, lo3(old(r.a.Y),b.Y,c.Y), hi3(old(r.a.Y),b.Y,c.Y))
invariant[C13] row(pStack,X)[2*i+2] == r.a.X && row(pStack,Y)[2*i+2] == r.a.Y
decreases weight(row(sStack), i+1)
use weightpos(row(sStack), i+1) at head
use weightpos(row(sStack), i+1) at end
use weightsame(athead(2, row(sStack)), row(sStack), athead(2, i)) at end
use weightsame(athead(2, row(sStack)), row(sStack), i+1) at end
use twopos(athead(2, row(sStack)[i])-1) at end
oncall raster.(*Rasterizer).Add1(r1, q)
requires[C13] between(q.X, old(r.a.X), b.X, c.X) && between(q.Y, old(r.a.Y), b.Y, c.Y)

def devlimit3(n int) int = n == 0 ? 2147483648 : (n == 1 ? 268435456 : (n == 2 ? 33554432 : (n == 3 ? 4194304 : (n == 4 ? 524288 : (n == 5 ? 65536 : (n == 6 ? 8192 : (n == 7 ? 1024 : (n == 8 ? 128 : (n == 9 ? 16 : (n == 10 ? 2 : (n == 11 ? 1 : (n == 12 ? 1 : (n == 13 ? 1 : (n == 14 ? 1 : (1)))))))))))))))

func raster.(*Rasterizer).Add3(r, b, c, d)
props C10 C13
noterm C10 C19 C21 C22 C23 C24
allocates
requires cellsok(r) && scaleok(r)
requires[C13] small(r.a.X) && small(r.a.Y) && small(b.X) && small(b.Y) && small(c.X) && small(c.Y) && small(d.X) && small(d.Y)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a, cellrow, gc
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r) && r.a.X == d.X && r.a.Y == d.Y
loop 1
invariant 0 <= nsplit && nsplit <= 16 && dev2 < devlimit3(nsplit) && dev3 < devlimit(nsplit)
decreases max(dev2,0)+max(dev3,0)
loop 2
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r)
invariant -1 <= i && 0 <= nsplit && nsplit <= 16
invariant forall k int {row(sStack)[k]} :: 0 <= k && k <= i ==> 0 <= row(sStack)[k] && row(sStack)[k] + k <= nsplit
invariant row(pStack,X)[0] == d.X && row(pStack,Y)[0] == d.Y
invariant i == -1 ==> r.a.X == d.X && r.a.Y == d.Y
invariant[C13] inside(row(pStack,X), 3*i+4, min(lo3(old(r.a.X),b.X,c.X), d.X), max(hi3(old(r.a.X),b.X,c.X), d.X))
invariant[C13] inside(row(pStack,Y), 3*i+4, min(lo3(old(r.a.Y),b.Y,c.Y), d.Y), max(hi3(old(r.a.Y),b.Y,c.Y), d.Y))
invariant[C13] row(pStack,X)[3*i+3] == r.a.X && row(pStack,Y)[3*i+3] == r.a.Y
decreases weight(row(sStack), i+1)
use weightpos(row(sStack), i+1) at head
use weightpos(row(sStack), i+1) at end
use weightsame(athead(2, row(sStack)), row(sStack), athead(2, i)) at end
use weightsame(athead(2, row(sStack)), row(sStack), i+1) at end
use twopos(athead(2, row(sStack)[i])-1) at end
oncall raster.(*Rasterizer).Add1(r1, q)
requires[C13] min(lo3(old(r.a.X),b.X,c.X), d.X) <= q.X && q.X <= max(hi3(old(r.a.X),b.X,c.X), d.X) && min(lo3(old(r.a.Y),b.Y,c.Y), d.Y) <= q.Y && q.Y <= max(hi3(old(r.a.Y),b.Y,c.Y), d.Y)

// ---- C19: paths
// wfat: the n values from i are those of whole starts and segments
spec wfat(P arr, i int, n int) bool = n <= 0 ? n == 0
  : (P[i] == 0 || P[i] == 1 ? n >= 4 && P[i+3] == P[i] && wfat(P, i+4, n-4)
  : (P[i] == 2 ? n >= 6 && P[i+5] == 2 && wfat(P, i+6, n-6)
  : P[i] == 3 && n >= 8 && P[i+7] == 3 && wfat(P, i+8, n-8)))
pred wfpath(p raster.Path) = wfat(row(p), off(p), len(p))
// gpos is where the path's next call is recorded
ghost gpos int

func raster.(*Rasterizer).AddPath(r, p)
props C10 C19
noterm C10 C22 C23 C24
allocates
requires cellsok(r) && scaleok(r) && goodpath(p)
use pathforth(row(p), off(p), len(p)) at entry
requires gpos == off(p)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a, cellrow, gc, gpos
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r)
ensures[C19] gpos == off(p) + len(p)
loop 1
invariant ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
invariant cellsok(r) && wfat(row(p), gpos, off(p)+len(p)-gpos) && gpos == off(p)+i && 0 <= i && i <= len(p)
decreases len(p) - i
oncall raster.(*Rasterizer).Start(r1, a)
requires row(p)[gpos] == 0 && gpos < off(p)+len(p)
requires a.X == row(p)[gpos+1] && a.Y == row(p)[gpos+2]
set gpos = gpos + 4
oncall raster.(*Rasterizer).Add1(r1, a)
requires row(p)[gpos] == 1 && gpos < off(p)+len(p)
requires a.X == row(p)[gpos+1] && a.Y == row(p)[gpos+2]
set gpos = gpos + 4
oncall raster.(*Rasterizer).Add2(r1, a, b)
requires row(p)[gpos] == 2 && gpos < off(p)+len(p)
requires a.X == row(p)[gpos+1] && a.Y == row(p)[gpos+2] && b.X == row(p)[gpos+3] && b.Y == row(p)[gpos+4]
set gpos = gpos + 6
oncall raster.(*Rasterizer).Add3(r1, a, b, c)
requires row(p)[gpos] == 3 && gpos < off(p)+len(p)
requires a.X == row(p)[gpos+1] && a.Y == row(p)[gpos+2] && b.X == row(p)[gpos+3] && b.Y == row(p)[gpos+4] && c.X == row(p)[gpos+5] && c.Y == row(p)[gpos+6]
set gpos = gpos + 8

// ---- C14
func raster.(*Rasterizer).Clear(r)
props C10 C14
requires shapeok(r)
use cellsok(r)
modifies r.cell, elems(r.cellIndex), r.area, r.cover, r.xi, r.yi, r.a
ensures cellsok(r) && emptyr(r) && penless(r) && ref(r.cell) == old(ref(r.cell))
loop 1
invariant ref(r.cell) == old(ref(r.cell))
invariant 0 <= i && i <= len(r.cellIndex)
invariant forall y int {r.cellIndex[y]} :: 0 <= y && y < i ==> r.cellIndex[y] == -1
decreases len(r.cellIndex) - i

func raster.(*Rasterizer).SetBounds(r, width, height)
props C10 C14
allocates
opt bigalloc
requires width <= 1048576 && height <= 1048576
modifies r.cell, elems(r.cellIndexBuf), r.cellIndex, r.area, r.cover, r.xi, r.yi, r.a, r.width, r.splitScale2, r.splitScale3
ensures cellsok(r) && scaleok(r) && emptyr(r) && penless(r)
ensures r.width == max(width, 0) && len(r.cellIndex) == max(height, 0) && r.splitScale2 == scale2(width, height) && r.splitScale3 == div(scale2(width, height), 2)
ensures root(r.cellIndex) == root(r) || fresh(r.cellIndex)

func raster.NewRasterizer(width, height) (r)
props C10 C14
allocates
requires width <= 1048576 && height <= 1048576
ensures r != nil && fresh(r) && cellsok(r) && scaleok(r) && emptyr(r) && penless(r)
ensures r.width == max(width, 0) && len(r.cellIndex) == max(height, 0) && r.splitScale2 == scale2(width, height) && r.splitScale3 == div(scale2(width, height), 2)
ensures r.Dx == 0 && r.Dy == 0 && !r.UseNonZeroWinding
ensures root(r.cellIndex) == root(r) || fresh(r.cellIndex)

// ---- C10
// The spans that have been painted end at or before (glasty, glastx).
pred offsetok(r *raster.Rasterizer) = -1099511627776 <= r.Dx <= 1099511627776 && -1099511627776 <= r.Dy <= 1099511627776 && len(r.cellIndex) <= 1099511627776

pred spanok(r *raster.Rasterizer, y int, x0 int, x1 int, a int) =
  0 <= y - r.Dy && y - r.Dy < len(r.cellIndex) && 0 <= x0 - r.Dx && x0 < x1 && x1 - r.Dx <= r.width && 1 <= a && a <= 65535

// The first n spans of the buffer are good, in order, after what was painted and before (y, x).
pred spansok(r *raster.Rasterizer, n int, y int, x int) =
  (forall i int {r.spanBuf[i].Y} :: 0 <= i < n ==> spanok(r, r.spanBuf[i].Y, r.spanBuf[i].X0, r.spanBuf[i].X1, r.spanBuf[i].Alpha)
      && upto(r.spanBuf[i].Y, r.spanBuf[i].X1, y, x) && (glast ==> upto(glasty, glastx, r.spanBuf[i].Y, r.spanBuf[i].X0)))
  && (forall i int, j int {r.spanBuf[i].Y, r.spanBuf[j].Y} :: 0 <= i && i < j && j < n ==> upto(r.spanBuf[i].Y, r.spanBuf[i].X1, r.spanBuf[j].Y, r.spanBuf[j].X0))
  && (glast ==> upto(glasty, glastx, y, x))

func raster.(*Rasterizer).Rasterize(r, p)
props C10 C14
split
allocates
requires r != nil && cellsok(r) && offsetok(r) && tag(p) != 0 && !glast && gdone == 0
requires paintready(p)
modifies r.cell, elems(r.cell), elems(r.cellIndex), r.area, r.cover, elems(r.spanBuf), glast, glasty, glastx, gdone, cellrow, gc, when(istype(p, truetype.facePainter), elems(asptr(p, truetype.facePainter).a.masks.Pix)), when(istype(p, raster.AlphaSrcPainter), elems(asptr(p, raster.AlphaSrcPainter).Image.Pix)), when(istype(p, raster.AlphaOverPainter), elems(asptr(p, raster.AlphaOverPainter).Image.Pix)), when(istype(p, raster.RGBAPainter, ptr), elems(asptr(p, raster.RGBAPainter).Image.Pix))
ensures ref(r.cell) == old(ref(r.cell)) || fresh(r.cell)
ensures cellsok(r)
ensures istype(p, truetype.facePainter) ==> let a = asptr(p, truetype.facePainter).a; slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
ensures[C10] gdone == 1
ensures[C14] old(emptyr(r)) ==> !glast
loop 1
use cellsok(r) at head
invariant cellsok(r) && 0 <= s <= 62 && 0 <= yi && gdone == 0
invariant[C14] old(emptyr(r)) ==> emptyr(r) && s == 0 && !glast
invariant[C10] spansok(r, s, yi + r.Dy, r.Dx)
invariant istype(p, truetype.facePainter) ==> let a = asptr(p, truetype.facePainter).a; slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
loop 2
invariant istype(p, truetype.facePainter) ==> let a = asptr(p, truetype.facePainter).a; slotonly(row(a.masks.Pix), old(row(a.masks.Pix)), off(a.masks.Pix) + a.paintOffset*a.maxw, a.maxw*a.maxh)
invariant cellsok(r) && 0 <= s <= 62 && gdone == 0
invariant[C14] old(emptyr(r)) ==> emptyr(r) && s == 0 && !glast && c == -1
invariant -1 <= c < len(r.cell) && 0 <= xi
invariant c != -1 ==> xi <= r.cell[c].xi || xi == 0
invariant[C10] spansok(r, s, yi + r.Dy, xi + r.Dx)
decreases (c == -1 ? 0 : r.width + 2 - r.cell[c].xi)
oncall raster.Painter.Paint(q, sp, d)
requires[C10] gdone == 0 && q == p
requires[C10] forall i int {row(sp,Y)[i]} :: off(sp) <= i && i < off(sp)+len(sp) ==> spanok(r, row(sp,Y)[i], row(sp,X0)[i], row(sp,X1)[i], row(sp,Alpha)[i])
requires[C10] inorder(row(sp,Y), row(sp,X0), row(sp,X1), off(sp), off(sp)+len(sp))
requires[C10] forall i int {row(sp,Y)[i]} :: off(sp) <= i && i < off(sp)+len(sp) && glast ==> upto(glasty, glastx, row(sp,Y)[i], row(sp,X0)[i])
set glast = pre(len(sp) > 0) ? true : glast
set glasty = pre(len(sp) > 0) ? pre(sp[len(sp)-1].Y) : glasty
set glastx = pre(len(sp) > 0) ? pre(sp[len(sp)-1].X1) : glastx
set gdone = gdone + (d ? 1 : 0)
