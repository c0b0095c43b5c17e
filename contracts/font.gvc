// Contracts for truetype/truetype.go.

// ---- big-endian values of a byte slice, and of its row of bytes
def be16(b []byte, i int) int = 256*b[i] + b[i+1]
def be32(b []byte, i int) int = 16777216*b[i] + 65536*b[i+1] + 256*b[i+2] + b[i+3]
def rb16(B arr, i int) int = 256*B[i] + B[i+1]
def rb32(B arr, i int) int = 16777216*B[i] + 65536*B[i+1] + 256*B[i+2] + B[i+3]
def s16(v int) int = v >= 32768 ? v - 65536 : v

pred typed(err error) = istype(err, truetype.FormatError) || istype(err, truetype.UnsupportedError)

extern fmt.Sprintf(f, a) (s)
ensures len(s) >= 0

func truetype.readTable(ttf, offsetLength) (t, err)
allocates
props C01
requires len(offsetLength) >= 8
ensures tag(err) == 0 || istype(err, truetype.FormatError) && len(t) == 0 && ref(t) == 0
ensures tag(err) == 0 <==> be32(offsetLength,0) + be32(offsetLength,4) <= len(ttf)
ensures tag(err) == 0 ==> ref(t) == ref(ttf) && off(t) == off(ttf) + be32(offsetLength,0) && len(t) == be32(offsetLength,4)

// ---- what every accepted font satisfies
pred headok(f *truetype.Font) = 1 <= f.fUnitsPerEm && f.fUnitsPerEm <= 65535 && (f.locaOffsetFormat == 1 || f.locaOffsetFormat == 2)
  && -32768 <= f.bounds.Min.X <= 32767 && -32768 <= f.bounds.Min.Y <= 32767 && -32768 <= f.bounds.Max.X <= 32767 && -32768 <= f.bounds.Max.Y <= 32767
pred kernok(f *truetype.Font) = 0 <= f.nKern && f.nKern <= 65535 && (f.nKern > 0 ==> len(f.kern) >= 18 + 6*f.nKern)
pred maxpok(f *truetype.Font) = 0 <= f.nGlyph && f.nGlyph <= 65535
pred hheaok(f *truetype.Font) = 0 <= f.nHMetric && f.nHMetric <= 65535 && (f.nGlyph > 0 ==> f.nHMetric > 0) && len(f.hmtx) == 4*f.nHMetric + 2*(f.nGlyph - f.nHMetric)
  && -32768 <= f.ascent <= 32767 && -32768 <= f.descent <= 32767
pred fontok(f *truetype.Font) = headok(f) && kernok(f) && maxpok(f) && hheaok(f)

func truetype.(*Font).parseHead(f) (err)
allocates
props C01 C02 C04
modifies f.fUnitsPerEm, f.bounds, f.locaOffsetFormat
ensures tag(err) == 0 || typed(err)
ensures tag(err) == 0 ==> headok(f)
ensures tag(err) == 0 ==> len(f.head) == 54 && f.fUnitsPerEm == be16(f.head, 18) && f.bounds.Min.X == s16(be16(f.head,36)) && f.bounds.Min.Y == s16(be16(f.head,38)) && f.bounds.Max.X == s16(be16(f.head,40)) && f.bounds.Max.Y == s16(be16(f.head,42)) && f.locaOffsetFormat == be16(f.head, 50) + 1

func truetype.(*Font).parseMaxp(f) (err)
allocates
props C01 C02 C04
modifies f.nGlyph, f.maxTwilightPoints, f.maxStorage, f.maxFunctionDefs, f.maxStackElements
ensures tag(err) == 0 || typed(err)
ensures tag(err) == 0 ==> maxpok(f)
ensures tag(err) == 0 ==> f.nGlyph == be16(f.maxp, 4) && f.maxTwilightPoints == be16(f.maxp, 16) && f.maxStorage == be16(f.maxp, 18) && f.maxFunctionDefs == be16(f.maxp, 20) && f.maxStackElements == be16(f.maxp, 24)

func truetype.(*Font).parseHhea(f) (err)
allocates
props C01 C02 C04
requires maxpok(f)
modifies f.ascent, f.descent, f.nHMetric
ensures tag(err) == 0 || typed(err)
ensures tag(err) == 0 ==> hheaok(f)
ensures tag(err) == 0 ==> f.ascent == s16(be16(f.hhea,4)) && f.descent == s16(be16(f.hhea,6)) && f.nHMetric == be16(f.hhea,34)

func truetype.(*Font).parseKern(f) (err)
allocates
props C01 C02 C04
requires f.nKern == 0
modifies f.nKern
ensures tag(err) == 0 || typed(err)
ensures tag(err) == 0 ==> kernok(f)
ensures tag(err) == 0 ==> (len(f.kern) == 0 ? f.nKern == 0 : be16(f.kern,0) == 0 && be16(f.kern,8) == 1 && f.nKern == be16(f.kern,10))

// ---- the preferred subtable of a cmap or name table: the first Unicode one, or else the last
// Microsoft one. With id >= 0 only records whose name identifier is id count.
def isuni(v int) = v == 3 || v == 4
def isms(v int) = v == 196608 || v == 196609 || v == 196618
def cand(B arr, p int, id int) = (isuni(rb32(B,p)) || isms(rb32(B,p))) && (id < 0 || rb16(B,p+6) == id)

spec pick(B arr, o int, n int, size int, id int) int =
  n <= 0 ? -1 : (pick(B,o,n-1,size,id) >= 0 && isuni(rb32(B, o + size*pick(B,o,n-1,size,id))) ? pick(B,o,n-1,size,id)
    : (cand(B, o + size*(n-1), id) ? n-1 : pick(B,o,n-1,size,id)))

lemma pickstop(B arr, o int, m int, n int, size int, id int)
requires 0 <= m && m <= n && pick(B,o,m,size,id) >= 0 && isuni(rb32(B, o + size*pick(B,o,m,size,id)))
induct n
use pickstop(B, o, m, n-1, size, id)
ensures pick(B,o,n,size,id) == pick(B,o,m,size,id)

// What pick means: a candidate, before which there is no Unicode candidate; if it is not Unicode, there is none, and no candidate after it.
lemma pickmeans(B arr, o int, n int, size int, id int)
requires size == 8 || size == 12
induct n
use pickmeans(B, o, n-1, size, id)
ensures -1 <= pick(B,o,n,size,id) && (pick(B,o,n,size,id) < n || n <= 0)
ensures pick(B,o,n,size,id) >= 0 ==> cand(B, o + size*pick(B,o,n,size,id), id)
ensures forall i int {rb32(B, o + size*i)} :: 0 <= i && i < n && cand(B, o + size*i, id) ==> pick(B,o,n,size,id) >= 0
   && (i < pick(B,o,n,size,id) ==> !isuni(rb32(B, o + size*i)))
   && (i > pick(B,o,n,size,id) ==> isuni(rb32(B, o + size*pick(B,o,n,size,id))))

// subtable is the index of the cmap subtable used, or -1
def subtable(f *truetype.Font) int = len(f.cmap) >= 4 && len(f.cmap) >= 4 + 8*be16(f.cmap,2) ? pick(row(f.cmap), off(f.cmap)+4, be16(f.cmap,2), 8, -1) : -1

// segno(f, k) is the number of the segment at index k of the rows of f.cm.
def segno(f *truetype.Font, k int) int = k - off(f.cm)

pred cm4ok(f *truetype.Font, o int, n int) = len(f.cm) == n && o + 16 + 8*n <= len(f.cmap)
  && (forall k int {row(f.cm,start)[k]} {row(f.cm,end)[k]} {row(f.cm,delta)[k]} {row(f.cm,offset)[k]} :: off(f.cm) <= k && k < off(f.cm)+n ==> row(f.cm,end)[k] == be16(f.cmap, o+14+2*segno(f,k))
     && row(f.cm,start)[k] == be16(f.cmap, o+16+2*n+2*segno(f,k)) && row(f.cm,delta)[k] == be16(f.cmap, o+16+4*n+2*segno(f,k)) && row(f.cm,offset)[k] == be16(f.cmap, o+16+6*n+2*segno(f,k)))
  && ref(f.cmapIndexes) == ref(f.cmap) && off(f.cmapIndexes) == off(f.cmap) + o + 16 + 8*n && len(f.cmapIndexes) == len(f.cmap) - (o + 16 + 8*n)

pred cm12ok(f *truetype.Font, o int, n int) = len(f.cm) == n && o + 16 + 12*n <= len(f.cmap)
  && (forall k int {row(f.cm,start)[k]} {row(f.cm,end)[k]} {row(f.cm,delta)[k]} {row(f.cm,offset)[k]} :: off(f.cm) <= k && k < off(f.cm)+n ==> row(f.cm,start)[k] == be32(f.cmap, o+16+12*segno(f,k))
     && row(f.cm,end)[k] == be32(f.cmap, o+20+12*segno(f,k)) && row(f.cm,delta)[k] == uint32(be32(f.cmap, o+24+12*segno(f,k)) - be32(f.cmap, o+16+12*segno(f,k))) && row(f.cm,offset)[k] == 0)

def cmo(f *truetype.Font) int = be32(f.cmap, 8 + 8*subtable(f))

// The character map in memory is the one in the preferred subtable.
pred cmapok(f *truetype.Font) = subtable(f) >= 0 && 0 < cmo(f) && cmo(f) + 16 <= len(f.cmap)
  && (be16(f.cmap, cmo(f)) == 4 ==> cm4ok(f, cmo(f), div(be16(f.cmap, cmo(f) + 6), 2)))
  && (be16(f.cmap, cmo(f)) != 4 ==> be16(f.cmap, cmo(f)) == 12 && cm12ok(f, cmo(f), be32(f.cmap, cmo(f) + 12)))

func truetype.(*Font).parseCmap(f) (err)
props C01 C03
allocates
modifies f.cm, f.cmapIndexes
ensures tag(err) == 0 || typed(err)
ensures[C03] tag(err) == 0 ==> cmapok(f)
use pickstop(row(f.cmap), off(f.cmap) + 4, athead(1, i)+1, be16(f.cmap,2), 8, -1) at return
// the loop of parseSubtables
loop 1
invariant 0 <= i <= nSubtables && offset == 4 + 8*i
invariant ok <==> pick(row(table), off(table) + 4, i, 8, -1) >= 0
invariant ok ==> bestOffset == 4 + 8*pick(row(table), off(table) + 4, i, 8, -1) && bestPID == div(be32(table, bestOffset), 65536)
invariant ok ==> !isuni(be32(table, bestOffset)) && pick(row(table), off(table) + 4, i, 8, -1) < i
loop 2
invariant 0 <= i <= segCount && offset == pre(offset) + 2*i
invariant forall k int {f.cm[k].end} :: 0 <= k && k < i ==> f.cm[k].end == be16(f.cmap, pre(offset)+2*k)
loop 3
invariant 0 <= i <= segCount && offset == pre(offset) + 2*i
invariant forall k int {f.cm[k].start} :: 0 <= k && k < i ==> f.cm[k].start == be16(f.cmap, pre(offset)+2*k)
loop 4
invariant 0 <= i <= segCount && offset == pre(offset) + 2*i
invariant forall k int {f.cm[k].delta} :: 0 <= k && k < i ==> f.cm[k].delta == be16(f.cmap, pre(offset)+2*k)
loop 5
invariant 0 <= i <= segCount && offset == pre(offset) + 2*i
invariant forall k int {f.cm[k].offset} :: 0 <= k && k < i ==> f.cm[k].offset == be16(f.cmap, pre(offset)+2*k)
loop 6
invariant 0 <= i <= nGroups && offset == pre(offset) + 12*i
invariant forall k int {f.cm[k].start} {f.cm[k].end} {f.cm[k].delta} :: 0 <= k && k < i ==> f.cm[k].start == be32(f.cmap, pre(offset)+12*k) && f.cm[k].end == be32(f.cmap, pre(offset)+12*k+4)
     && f.cm[k].delta == uint32(be32(f.cmap, pre(offset)+12*k+8) - be32(f.cmap, pre(offset)+12*k))

// ---- C01: the table directory. entry is the last of n directory entries with the tag abcd, or -1.
spec entry(B arr, o int, n int, a int, b int, c int, d int) int =
  n <= 0 ? -1 : (B[o+16*(n-1)] == a && B[o+16*(n-1)+1] == b && B[o+16*(n-1)+2] == c && B[o+16*(n-1)+3] == d ? n-1 : entry(B,o,n-1,a,b,c,d))

pred slot(t []byte, ttf []byte, base int, e int) = ref(t) == ref(ttf) && off(t) == off(ttf) + be32(ttf, base+16*e+8) && len(t) == be32(ttf, base+16*e+12)

pred tabok(t []byte, ttf []byte, base int, n int, a int, b int, c int, d int) =
  (entry(row(ttf), off(ttf)+base, n, a, b, c, d) < 0 ? ref(t) == 0 && len(t) == 0 : slot(t, ttf, base, entry(row(ttf), off(ttf)+base, n, a, b, c, d)))

pred tablesok(F *truetype.Font, ttf []byte, base int, n int) =
  tabok(F.cmap, ttf, base, n, 99, 109, 97, 112)
  && tabok(F.cvt, ttf, base, n, 99, 118, 116, 32)
  && tabok(F.fpgm, ttf, base, n, 102, 112, 103, 109)
  && tabok(F.glyf, ttf, base, n, 103, 108, 121, 102)
  && tabok(F.hdmx, ttf, base, n, 104, 100, 109, 120)
  && tabok(F.head, ttf, base, n, 104, 101, 97, 100)
  && tabok(F.hhea, ttf, base, n, 104, 104, 101, 97)
  && tabok(F.hmtx, ttf, base, n, 104, 109, 116, 120)
  && tabok(F.kern, ttf, base, n, 107, 101, 114, 110)
  && tabok(F.loca, ttf, base, n, 108, 111, 99, 97)
  && tabok(F.maxp, ttf, base, n, 109, 97, 120, 112)
  && tabok(F.name, ttf, base, n, 110, 97, 109, 101)
  && tabok(F.os2, ttf, base, n, 79, 83, 47, 50)
  && tabok(F.prep, ttf, base, n, 112, 114, 101, 112)
  && tabok(F.vmtx, ttf, base, n, 118, 109, 116, 120)

def fontbase(ttf []byte, offset int) int = be32(ttf, offset) == 1953784678 ? be32(ttf, offset+12) : offset

func truetype.parse(ttf, offset) (font, err)
split
props C01 C02 C03
allocates
requires 0 <= offset && offset <= len(ttf)
decreases (offset == 0 ? 1 : 0)
ensures tag(err) == 0 <==> font != nil
ensures tag(err) == 0 || typed(err)
ensures font != nil ==> fontok(font)
ensures[C03] font != nil ==> cmapok(font)
ensures[C01] font != nil ==> offset + 12 <= len(ttf) && (offset != 0 ==> be32(ttf, offset) != 1953784678)
ensures[C01] font != nil ==> offset + 12 <= len(ttf) && 0 <= fontbase(ttf, offset) && fontbase(ttf, offset) + 12 <= len(ttf) && be32(ttf, fontbase(ttf, offset)) == 65536
ensures[C01] font != nil ==> tablesok(font, ttf, fontbase(ttf, offset) + 12, be16(ttf, fontbase(ttf, offset) + 4))
loop 1
invariant 0 <= i <= n && tag(err) == 0 && f.nKern == 0
invariant tablesok(f, ttf, offset, i)

func truetype.Parse(ttf) (font, err)
props C01 C02 C03
allocates
ensures tag(err) == 0 <==> font != nil
ensures tag(err) == 0 || typed(err)
ensures font != nil ==> fontok(font)
ensures[C03] font != nil ==> cmapok(font)
ensures[C01] font != nil ==> tablesok(font, ttf, fontbase(ttf, 0) + 12, be16(ttf, fontbase(ttf, 0) + 4))

func freetype.ParseFont(b) (font, err)
props C01 C02 C03
allocates
ensures tag(err) == 0 <==> font != nil
ensures tag(err) == 0 || typed(err)
ensures font != nil ==> fontok(font)
ensures[C03] font != nil ==> cmapok(font)
ensures[C01] font != nil ==> tablesok(font, b, fontbase(b, 0) + 12, be16(b, fontbase(b, 0) + 4))

// ---- C03: looking up a rune
pred segsorted(f *truetype.Font) = (forall k int {row(f.cm,start)[k]} {row(f.cm,end)[k]} :: off(f.cm) <= k && k < off(f.cm) + len(f.cm) ==> row(f.cm,start)[k] <= row(f.cm,end)[k])
  && (forall j int, k int {row(f.cm,start)[j], row(f.cm,start)[k]} {row(f.cm,end)[j], row(f.cm,end)[k]} :: off(f.cm) <= j && j < k && k < off(f.cm) + len(f.cm) ==> row(f.cm,end)[j] < row(f.cm,start)[k])
pred insegment(f *truetype.Font, k int, c int) = 0 <= k && k < len(f.cm) && f.cm[k].start <= c && c <= f.cm[k].end
def glyphslot(f *truetype.Font, k int, c int) int = f.cm[k].offset + 2*(k - len(f.cm) + c - f.cm[k].start)
def segglyph(f *truetype.Font, k int, c int) int =
  f.cm[k].offset == 0 ? mod(c + f.cm[k].delta, 65536)
  : (glyphslot(f,k,c) < 0 || glyphslot(f,k,c) + 2 > len(f.cmapIndexes) || be16(f.cmapIndexes, glyphslot(f,k,c)) == 0 ? 0
  : mod(be16(f.cmapIndexes, glyphslot(f,k,c)) + f.cm[k].delta, 65536))

func truetype.(*Font).Index(f, x) (res)
props C02 C03
ghost gk int
ensures[C03] segsorted(f) && insegment(f, gk, uint32(x)) ==> res == segglyph(f, gk, uint32(x))
ensures[C03] (forall k int {f.cm[k].start} :: !insegment(f, k, uint32(x))) ==> res == 0
loop 1
invariant 0 <= i && i <= j && j <= len(f.cm)
invariant segsorted(f) && insegment(f, gk, uint32(x)) ==> i <= gk && gk < j
decreases j - i

// ---- C04: metrics
// y is x/u rounded to the nearest integer, ties away from zero.
pred isnearest(y int, x int, u int) = x >= 0 ? 2*y*u <= 2*x+u && 2*x+u < 2*y*u + 2*u : 2*y*u >= 2*x-u && 2*x-u > 2*y*u - 2*u
pred fits(x int, u int) = -2147483648 <= x - div(u,2) && x + div(u,2) <= 2147483647
pred scaled(y int, v int, scale int, u int) = fits(scale*v, u) ==> isnearest(y, scale*v, u)

func truetype.(*Font).scale(f, x) (res)
props C02 C04
requires headok(f)
ensures fits(x, f.fUnitsPerEm) ==> isnearest(res, x, f.fUnitsPerEm)

func truetype.(*Font).Bounds(f, scale) (b)
props C02 C04
requires headok(f)
ensures[C04 C23 C24 C25] scaled(b.Min.X, f.bounds.Min.X, scale, f.fUnitsPerEm) && scaled(b.Min.Y, f.bounds.Min.Y, scale, f.fUnitsPerEm)
ensures[C04 C23 C24 C25] scaled(b.Max.X, f.bounds.Max.X, scale, f.fUnitsPerEm) && scaled(b.Max.Y, f.bounds.Max.Y, scale, f.fUnitsPerEm)

func truetype.(*Font).FUnitsPerEm(f) (res)
props C02 C04
ensures res == f.fUnitsPerEm

def hadvance(f *truetype.Font, i int) int = i >= f.nGlyph ? 0 : (i >= f.nHMetric ? be16(f.hmtx, 4*(f.nHMetric-1)) : be16(f.hmtx, 4*i))
def hbearing(f *truetype.Font, i int) int = i >= f.nGlyph ? 0 : (i >= f.nHMetric ? s16(be16(f.hmtx, 4*f.nHMetric + 2*(i - f.nHMetric))) : s16(be16(f.hmtx, 4*i + 2)))

func truetype.(*Font).unscaledHMetric(f, i) (h)
props C02 C04
requires maxpok(f) && hheaok(f)
ensures h.AdvanceWidth == hadvance(f, i) && h.LeftSideBearing == hbearing(f, i)

func truetype.(*Font).HMetric(f, scale, i) (h)
props C02 C04
requires headok(f) && maxpok(f) && hheaok(f)
ensures i >= f.nGlyph ==> h.AdvanceWidth == 0 && h.LeftSideBearing == 0
ensures[C04] scaled(h.AdvanceWidth, hadvance(f, i), scale, f.fUnitsPerEm) && scaled(h.LeftSideBearing, hbearing(f, i), scale, f.fUnitsPerEm)

// Vertical metrics come from the vmtx table if it has them, else from the OS/2 table, else from the head table.
def vadvance(f *truetype.Font, i int) int = i >= f.nGlyph ? 0 : (4*i + 4 <= len(f.vmtx) ? be16(f.vmtx, 4*i) : (len(f.os2) >= 72 ? s16(be16(f.os2, 68)) - s16(be16(f.os2, 70)) : f.fUnitsPerEm))
def vbearing(f *truetype.Font, i int, ymax int) int = i >= f.nGlyph ? 0 : (4*i + 4 <= len(f.vmtx) ? s16(be16(f.vmtx, 4*i+2)) : (len(f.os2) >= 72 ? int32(s16(be16(f.os2, 68)) - ymax) : 0))

func truetype.(*Font).unscaledVMetric(f, i, yMax) (v)
props C02 C04
ensures v.AdvanceHeight == vadvance(f, i) && v.TopSideBearing == vbearing(f, i, yMax)

func truetype.(*Font).VMetric(f, scale, i) (v)
props C02 C04
requires headok(f)
ensures i >= f.nGlyph ==> v.AdvanceHeight == 0 && v.TopSideBearing == 0
ensures[C04] scaled(v.AdvanceHeight, vadvance(f, i), scale, f.fUnitsPerEm) && scaled(v.TopSideBearing, vbearing(f, i, 0), scale, f.fUnitsPerEm)

def kernpair(f *truetype.Font, k int) int = be32(f.kern, 18 + 6*k)
// The pairs in the table increase: those 6 bytes apart.
pred pairsup(B arr, o int, n int) = forall p int, q int {B[p], B[q]} :: o <= p && p < q && q < o + 6*n && mod(p - o, 6) == 0 && mod(q - o, 6) == 0 ==> rb32(B, p) < rb32(B, q)
pred kernsorted(f *truetype.Font) = pairsup(row(f.kern), off(f.kern) + 18, f.nKern)

func truetype.(*Font).Kern(f, scale, i0, i1) (res)
props C02 C04
ghost gk int
requires headok(f) && kernok(f)
ensures[C04] kernsorted(f) && 0 <= gk && gk < f.nKern && kernpair(f, gk) == 65536*i0 + i1 ==> scaled(res, s16(be16(f.kern, 22 + 6*gk)), scale, f.fUnitsPerEm)
ensures[C04] (forall k int {be32(f.kern, 18 + 6*k)} :: 0 <= k && k < f.nKern ==> kernpair(f, k) != 65536*i0 + i1) ==> res == 0
loop 1
invariant 0 <= lo && lo <= hi && hi <= f.nKern
invariant kernsorted(f) && 0 <= gk && gk < f.nKern && kernpair(f, gk) == 65536*i0 + i1 ==> lo <= gk && gk < hi
decreases hi - lo

// ---- C05: names
def namerec(f *truetype.Font, id int) int = len(f.name) >= 4 && len(f.name) >= 6 + 12*be16(f.name,2) ? pick(row(f.name), off(f.name)+6, be16(f.name,2), 12, id) : -1
def namestart(f *truetype.Font, e int) int = be16(f.name, 4) + be16(f.name, 6 + 12*e + 10)
def namelen(f *truetype.Font, e int) int = be16(f.name, 6 + 12*e + 8)
def shown(c int) int = 32 <= c && c < 127 ? c : 63
pred namedby(f *truetype.Font, e int, s string) = namestart(f, e) + namelen(f, e) > len(f.name) || mod(namelen(f, e), 2) == 1 ? len(s) == 0
  : 2*len(s) == namelen(f, e) && (forall j int {s[j]} :: 0 <= j && j < len(s) ==> s[j] == shown(be16(f.name, namestart(f, e) + 2*j)))

func truetype.(*Font).Name(f, id) (res)
props C02 C05
allocates
ensures namerec(f, id) < 0 ==> len(res) == 0
ensures[C05] namerec(f, id) >= 0 ==> namedby(f, namerec(f, id), res)
use pickstop(row(f.name), off(f.name) + 6, athead(1, i)+1, be16(f.name,2), 12, id) at return
loop 1
invariant 0 <= i <= nSubtables && offset == 6 + 12*i
invariant ok <==> pick(row(table), off(table) + 6, i, 12, id) >= 0
invariant ok ==> bestOffset == 6 + 12*pick(row(table), off(table) + 6, i, 12, id) && bestPID == div(be32(table, bestOffset), 65536)
invariant ok ==> isms(be32(table, bestOffset)) && pick(row(table), off(table) + 6, i, 12, id) < i
loop 2
invariant forall j int {dst[j]} :: 0 <= j && j < it ==> dst[j] == shown(be16(src, 2*j))
loop 3
