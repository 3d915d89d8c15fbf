package harness

// The font model: what a font means, independent of how it is stored.

import (
	"bytes"
	"fmt"
	"math"

	"pgregory.net/rapid"
)

var (
	genU64 = rapid.Uint64()
	genB   = rapid.Bool()
)

// I draws an int in [lo,hi], biased towards lo (rapid's own bias).
func (k *Case) I(lo, hi int) int {
	if hi <= lo {
		return lo
	}
	return rapid.IntRange(lo, hi).Draw(k.T, "i")
}

// U draws an int in [0,n), spread evenly; shrinks to 0.
func (k *Case) U(n int) int {
	if n <= 1 {
		return 0
	}
	v := genU64.Draw(k.T, "u")
	if v == 0 {
		return 0
	}
	return int(mix(v) % uint64(n))
}

func (k *Case) B() bool { return genB.Draw(k.T, "b") }

// P is true in about pct of 100 draws; shrinks to false.
func (k *Case) P(pct int) bool { return 100-pct <= k.U(100) }

func (k *Case) blob(n int) []byte {
	b := make([]byte, n)
	s := genU64.Draw(k.T, "blob")
	for i := range b {
		s = mix(s + 1)
		b[i] = byte(s >> 20)
	}
	return b
}

// bigBlob makes data whose length is around a power of two at which something may change (a length
// that takes another byte, a 16-bit number, a buffer); runs of it repeat.
func (k *Case) bigBlob() []byte {
	n := pick(k, 127, 128, 16383, 16384, 32767, 32768, 65535, 65536, 65537, 131072, 1<<20-1, 1<<20, 1<<20+1, 1<<21-1, 1<<21, 1<<21+1, 3<<20, 1<<16+k.U(1<<20))
	period := pick(k, 64, 1, 4096, 100000, 1<<22)
	b := k.blob(min(n, period))
	return bytes.Repeat(b, n/len(b)+1)[:n]
}

// bigExtra sometimes gives the font a large table that is copied as it is.
func (k *Case) bigExtra(f *Font) {
	if k.P(2) {
		f.Extra[pick(k, "zzzz", "cvt ", "abcd", "BASE")] = k.bigBlob()
		k.class("a table of special length")
	}
}

func mix(x uint64) uint64 {
	x += 0x9E3779B97F4A7C15
	x = (x ^ x>>30) * 0xBF58476D1CE4E5B9
	x = (x ^ x>>27) * 0x94D049BB133111EB
	return x ^ x>>31
}

func pick[T any](k *Case, xs ...T) T { return xs[k.U(len(xs))] }

func clampi(v, lo, hi int) int { return max(lo, min(hi, v)) }

// Pt is an outline point of a TrueType contour.
type Pt struct {
	X, Y int
	On   bool
}

// Comp is a component of a composite glyph.
type Comp struct {
	GID    int
	DX, DY int
	Words  bool   // force 16-bit arguments
	Kind   int    // 0 none, 1 scale, 2 x and y scale, 3 two by two
	M      [4]int // F2Dot14: xscale, scale01, scale10, yscale
	Flags  uint16 // further flags (ROUND, USE_MY_METRICS, OVERLAP, UNSCALED)
}

// Glyph is one glyph of the model.
type Glyph struct {
	// TrueType
	Contours  [][]Pt
	Comps     []Comp
	Instr     []byte
	HasInstr  bool // composite with an instructions field (possibly empty)
	Overlap   bool // OVERLAP_SIMPLE on the first flag
	BBox      [4]int
	ZeroConts bool // stored as a header with zero contours rather than as nothing
	// CFF
	Ops *T2Glyph

	Pad        bool // one of very many empty glyphs
	Adv, LSB   int
	VAdv, TSB  int
	Name       string
	data       []byte // its glyf data, once encoded
	charstring []byte
}

func (g *Glyph) isEmpty() bool { return len(g.Contours) == 0 && len(g.Comps) == 0 }

// Sub is one cmap subtable of the model.
type Sub struct {
	Platform, Encoding int
	Format             int
	Map                map[rune]int // covered runes, including those covered with glyph 0
	data               []byte
	more               [][2]int // further encoding records sharing the subtable
}

// KernSub is one kern subtable.
type KernSub struct {
	Format                             int
	Vertical, Minimum, Cross, Override bool
	Pairs                              []KernPair
	Raw                                []byte // body of subtables of other kinds
	Unsorted                           bool
	Trailing                           int
	Other                              int // a version or a variation flag that makes it another kind
}

type KernPair struct{ L, R, V int }

type NameRec struct {
	Platform, Encoding, Language, ID int
	Raw                              []byte
	Text                             string
	Known                            bool // Text is the expected decoding
}

// Font is the model of a font.
type Font struct {
	CFF     bool
	TrueTag bool // version 'true'
	UPM     int
	Glyphs  []*Glyph
	NHM     int // number of full horizontal metrics
	NVM     int // vertical: 0 means no vhea/vmtx
	Subs    []*Sub
	Kern    []KernSub // nil: no table
	KernV1  bool
	HasKern bool
	PostV   int // 1, 2 or 3
	Names   []NameRec
	LangTag []string
	NameV1  bool
	HasOS2  bool
	OS2     OS2Model
	Head    HeadModel
	Hhea    HheaModel
	Vhea    HheaModel
	Maxp    [13]int
	Post    PostModel
	Extra   map[string][]byte
	LocaFmt int
	CFFM    *CFFModel

	CmapSlack int
	tables    map[string][]byte
}

type OS2Model struct {
	Version int
	Short   bool // version 0 with 68 bytes
	F       []byte
}

type HeadModel struct {
	Revision           uint32
	Flags              int
	Created, Modified  int64
	BBox               [4]int
	MacStyle, Lowest   int
	Direction          int
	GlyphDataFmt       int
	ChecksumAdjustment uint32
}

// HheaModel holds hhea or vhea values.
type HheaModel struct {
	Asc, Desc, Gap, AdvMax, MinL, MinR, Ext, Rise, Run, Caret int
	Fmt                                                       int
	Minor                                                     int
}

type PostModel struct {
	Angle          int32 // 16.16
	UPos, UThick   int
	Fixed          uint32
	M42a, M42b     uint32
	M1a, M1b       uint32
	CustomStd      bool // store standard names as custom strings
	UnusedStrings  int
	DupStrings     bool
	TrailingNoName bool
}

func (f *Font) N() int { return len(f.Glyphs) }

func (f *Font) String() string {
	flav := "TrueType"
	if f.CFF {
		flav = "CFF"
	}
	nc, np, nk := 0, 0, 0
	for _, g := range f.Glyphs {
		if 0 < len(g.Comps) {
			nc++
		}
		for _, c := range g.Contours {
			np += len(c)
		}
	}
	for _, s := range f.Kern {
		nk += len(s.Pairs)
	}
	fm := []int{}
	nr := 0
	for _, s := range f.Subs {
		fm = append(fm, s.Format)
		nr += len(s.Map)
	}
	return fmt.Sprintf("%s glyphs=%d composites=%d points=%d upm=%d hmetrics=%d vmetrics=%d cmap formats=%v entries=%d kern subtables=%d pairs=%d post=%d loca=%d", flav, f.N(), nc, np, f.UPM, f.NHM, f.NVM, fm, nr, len(f.Kern), nk, f.PostV, f.LocaFmt)
}

// ---- reference outline ----

// Seg is a drawn segment; Op is one of M L Q C Z.
type Seg struct {
	Op byte
	P  [6]float64
}

type pathRec struct{ segs []Seg }

func (p *pathRec) MoveTo(x, y float64) { p.segs = append(p.segs, Seg{'M', [6]float64{x, y}}) }
func (p *pathRec) LineTo(x, y float64) { p.segs = append(p.segs, Seg{'L', [6]float64{x, y}}) }
func (p *pathRec) QuadTo(a, b, x, y float64) {
	p.segs = append(p.segs, Seg{'Q', [6]float64{a, b, x, y}})
}
func (p *pathRec) CubeTo(a, b, c, d, x, y float64) {
	p.segs = append(p.segs, Seg{'C', [6]float64{a, b, c, d, x, y}})
}
func (p *pathRec) Close() { p.segs = append(p.segs, Seg{Op: 'Z'}) }

func (s Seg) end() (float64, float64) {
	switch s.Op {
	case 'Q':
		return s.P[2], s.P[3]
	case 'C':
		return s.P[4], s.P[5]
	}
	return s.P[0], s.P[1]
}

func (s Seg) n() int {
	switch s.Op {
	case 'Q':
		return 4
	case 'C':
		return 6
	case 'Z':
		return 0
	}
	return 2
}

// cseg is a segment with its start point: the unit of comparison.
type cseg struct {
	op byte
	p  [8]float64 // start, controls, end
	n  int
}

// contours splits a path into closed contours of segments without zero-length lines, adding the
// closing line. An error means the path itself is ill-formed (not started, not closed).
func contours(segs []Seg) ([][]cseg, error) {
	var out [][]cseg
	var cur []cseg
	open := false
	var sx, sy, x, y float64
	add := func(op byte, n int, p [8]float64) {
		if op == 'L' && p[0] == p[2] && p[1] == p[3] {
			return
		}
		cur = append(cur, cseg{op, p, n})
	}
	for i, s := range segs {
		switch s.Op {
		case 'M':
			if open {
				return nil, fmt.Errorf("contour not closed before segment %d", i)
			}
			open = true
			sx, sy = s.P[0], s.P[1]
			x, y = sx, sy
			cur = nil
		case 'Z':
			if !open {
				continue // closing nothing draws nothing
			}
			if x != sx || y != sy {
				add('L', 4, [8]float64{x, y, sx, sy})
			}
			out = append(out, cur)
			open = false
		default:
			if !open {
				return nil, fmt.Errorf("segment %d (%c) outside a contour", i, s.Op)
			}
			p := [8]float64{x, y}
			copy(p[2:], s.P[:s.n()])
			add(s.Op, 2+s.n(), p)
			x, y = s.end()
		}
	}
	if open {
		return nil, fmt.Errorf("last contour not closed")
	}
	return out, nil
}

// sameContour compares two closed contours up to the choice of the starting point. Lines no longer
// than the tolerance allows may be missing on either side.
func sameContour(a, b []cseg, tol float64) bool {
	if tol < 1e-3 {
		a, b = dropShort(a, tol), dropShort(b, tol)
	}
	if len(a) == 0 || len(b) == 0 {
		return len(dropShort(a, 2*tol)) == 0 && len(dropShort(b, 2*tol)) == 0
	}
	for r := 0; r < len(b); r++ {
		if alignSegs(a, b, r, tol) {
			return true
		}
	}
	// a may start with a line that is short enough to be missing in b
	if 0 < tol && len(dropShort(a, 2*tol)) != len(a) {
		for q := 1; q < len(a); q++ {
			a2 := append(append([]cseg{}, a[q:]...), a[:q]...)
			for r := 0; r < len(b); r++ {
				if alignSegs(a2, b, r, tol) {
					return true
				}
			}
		}
	}
	return false
}

func segNear(s, t *cseg, tol float64) bool {
	if s.op != t.op {
		return false
	}
	for j := 0; j < s.n; j++ {
		if !(math.Abs(s.p[j]-t.p[j]) <= tol) {
			return false
		}
	}
	return true
}

func (s *cseg) short(tol float64) bool {
	for j := 2; j < s.n; j += 2 {
		if !(math.Abs(s.p[j]-s.p[0]) <= tol && math.Abs(s.p[j+1]-s.p[1]) <= tol) {
			return false
		}
	}
	return true
}

func alignSegs(a, b []cseg, r int, tol float64) bool {
	n, m := len(a), len(b)
	i, j := 0, 0
	for i < n && j < m && segNear(&a[i], &b[(j+r)%m], tol) {
		i++
		j++
	}
	if i == n && j == m {
		return true
	}
	if tol == 0 {
		return false
	}
	// slow path with skipping
	seen := map[[2]int]bool{}
	var rec func(i, j int) bool
	rec = func(i, j int) bool {
		if i == n && j == m {
			return true
		}
		key := [2]int{i, j}
		if seen[key] {
			return false
		}
		seen[key] = true
		if i < n && j < m && segNear(&a[i], &b[(j+r)%m], tol) && rec(i+1, j+1) {
			return true
		}
		if i < n && a[i].short(2*tol) && rec(i+1, j) {
			return true
		}
		if j < m && b[(j+r)%m].short(2*tol) && rec(i, j+1) {
			return true
		}
		return false
	}
	return rec(0, 0)
}

func dropShort(a []cseg, tol float64) []cseg {
	var out []cseg
	for _, s := range a {
		if !s.short(tol) {
			out = append(out, s)
		}
	}
	return out
}

// samePath compares two paths contour by contour; contours without any segment are ignored.
func samePath(got, want []Seg, tol float64) error {
	a, err := contours(got)
	if err != nil {
		return err
	}
	b, err := contours(want)
	if err != nil {
		return fmt.Errorf("expected path: %v", err)
	}
	if len(a) != len(b) {
		a, b = dropEmpty(a, 2*tol), dropEmpty(b, 2*tol)
	}
	if len(a) != len(b) {
		return fmt.Errorf("%d contours, expected %d", len(a), len(b))
	}
	for i := range a {
		if !sameContour(a[i], b[i], tol) {
			return fmt.Errorf("contour %d is %v, expected %v", i, fmtContour(a[i]), fmtContour(b[i]))
		}
	}
	return nil
}

func dropEmpty(a [][]cseg, tol float64) [][]cseg {
	var out [][]cseg
	for _, c := range a {
		if 0 < len(dropShort(c, tol)) {
			out = append(out, c)
		}
	}
	return out
}

func fmtContour(c []cseg) string {
	s := ""
	for i, g := range c {
		if 12 < i {
			return s + " ..."
		}
		s += fmt.Sprintf(" %c%v", g.op, g.p[:g.n])
	}
	return s
}

// refPoints gives the points of a TrueType glyph in exact arithmetic together with a bound on the
// rounding an integer implementation may introduce (one unit for each transformed level).
func (f *Font) refPoints(gid int) (cs [][]fpt, bound float64) { return refPointsOf(f.Glyphs, gid, 0) }

type fpt struct {
	x, y float64
	on   bool
}

func refPointsOf(gl []*Glyph, gid, level int) (cs [][]fpt, bound float64) {
	g := gl[gid]
	for _, c := range g.Contours {
		var fc []fpt
		for _, p := range c {
			fc = append(fc, fpt{float64(p.X), float64(p.Y), p.On})
		}
		cs = append(cs, fc)
	}
	for _, c := range g.Comps {
		sub, b := refPointsOf(gl, c.GID, level+1)
		m := c.matrix()
		if c.Kind != 0 {
			b = b*math.Max(math.Abs(m[0])+math.Abs(m[2]), math.Abs(m[1])+math.Abs(m[3])) + 1
		}
		bound = math.Max(bound, b)
		for _, sc := range sub {
			var fc []fpt
			for _, p := range sc {
				fc = append(fc, fpt{m[0]*p.x + m[2]*p.y + float64(c.DX), m[1]*p.x + m[3]*p.y + float64(c.DY), p.on})
			}
			cs = append(cs, fc)
		}
	}
	return cs, bound
}

// matrix is xscale, scale01, scale10, yscale as numbers.
func (c *Comp) matrix() [4]float64 {
	f := func(i int) float64 { return float64(c.M[i]) / 16384 }
	switch c.Kind {
	case 1:
		return [4]float64{f(0), 0, 0, f(0)}
	case 2:
		return [4]float64{f(0), 0, 0, f(3)}
	case 3:
		return [4]float64{f(0), f(1), f(2), f(3)}
	}
	return [4]float64{1, 0, 0, 1}
}

// ptsToPath draws contours of on/off-curve points.
func ptsToPath(cs [][]fpt) []Seg {
	var p pathRec
	for _, c := range cs {
		n := len(c)
		if n == 0 {
			continue
		}
		// expand implied on-curve points
		var e []fpt
		for i, q := range c {
			prev := c[(i+n-1)%n]
			if !q.on && !prev.on {
				e = append(e, fpt{(prev.x + q.x) / 2, (prev.y + q.y) / 2, true})
			}
			e = append(e, q)
		}
		s := 0
		for s < len(e) && !e[s].on {
			s++
		}
		e = append(append([]fpt{}, e[s:]...), e[:s]...)
		p.MoveTo(e[0].x, e[0].y)
		for i := 1; i <= len(e); i++ {
			q := e[i%len(e)]
			if q.on {
				if i < len(e) {
					p.LineTo(q.x, q.y)
				}
			} else {
				z := e[(i+1)%len(e)]
				p.QuadTo(q.x, q.y, z.x, z.y)
				i++
			}
		}
		p.Close()
	}
	return p.segs
}

func transformSegs(s []Seg, x, y, f float64) []Seg {
	out := make([]Seg, len(s))
	for i, g := range s {
		out[i].Op = g.Op
		for j := 0; j < g.n(); j += 2 {
			out[i].P[j] = x + f*g.P[j]
			out[i].P[j+1] = y + f*g.P[j+1]
		}
	}
	return out
}
