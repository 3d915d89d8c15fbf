package harness

// Drawing font models.

import (
	"encoding/binary"
	"fmt"
	"math"
	"slices"
	"unicode/utf8"

	"golang.org/x/text/encoding/charmap"
)

// FontOpt steers the generator.
type FontOpt struct {
	Flavour  int  // 0 either, 1 TrueType, 2 CFF
	MaxN     int  // usual upper bound for glyphs (default 14)
	Wide     bool // full coordinate range
	Sane     bool // bounding boxes, side bearings and headers consistent with the outlines
	NoKern   bool
	NoVert   bool
	NoExtra  bool
	BigN     bool // sometimes many glyphs
	Unique   bool // unique non-empty glyph names
	PlainMap bool // no zero-glyph coverage and no symbol maps
	MinN     int
	NoCID    bool
	NoSubrs  bool
	Huge     bool // sometimes more than 33900 subroutines in use
	HugeN    int  // percentage of fonts with tens of thousands of glyphs, nearly all empty
	Edit     bool // for subsetting and merging: no component is the missing glyph
}

func (k *Case) genFont(o FontOpt) *Font {
	f := &Font{}
	f.CFF = o.Flavour == 2 || o.Flavour == 0 && k.P(35)
	f.UPM = pick(k, 1000, 2048, 1024, 16, 16384, 1+k.U(16384))
	maxN := o.MaxN
	if maxN == 0 {
		maxN = 14
	}
	n := max(1, o.MinN) + k.I(0, maxN-1)
	if o.BigN && k.P(12) {
		n = pick(k, 31, 32, 33, 64, 63, 65, 96, 255, 256, 257, 300, 258, 259, 270, 228, 229, 230)
	}
	f.LocaFmt = k.U(2)
	if f.CFF {
		f.LocaFmt = k.U(2)
		k.genCFF(f, n, o)
	} else {
		f.TrueTag = k.P(8)
		k.genTTGlyphs(f, n, o)
	}
	if 0 < o.HugeN && k.P(o.HugeN) {
		k.padGlyphs(f, o)
	}
	k.genMetrics(f, o)
	k.genNames(f, o)
	k.genCmap(f, o)
	if !o.NoKern && k.P(60) {
		k.genKern(f)
	}
	k.genHeaders(f, o)
	k.genNameTable(f)
	f.Extra = map[string][]byte{}
	if !o.NoExtra {
		for i := k.I(0, 4); 0 < i; i-- {
			tag := pick(k, "cvt ", "fpgm", "prep", "gasp", "GDEF", "DSIG", "LTSH", "abcd", "zzzz", "A   ", "meta", "VDMX", "FFTM", "", "", "", "", "", "")
			if tag == "" {
				if tag = woff2Known[k.U(len(woff2Known))]; isKnownTag(tag) {
					continue
				}
			}
			f.Extra[tag] = k.blob(pick(k, 4, 1, 2, 3, 8, 17, 64, 0))
		}
	}
	return f
}

// padGlyphs inserts empty glyphs, so that the others have high glyph IDs.
func (k *Case) padGlyphs(f *Font, o FontOpt) {
	n := f.N()
	add := pick(k, 32760, 32768, 40000, 60000, 65535, 250) + k.U(20) - n
	limit := 65535
	if f.CFF {
		limit = 64000 // the number of strings is limited
	}
	if o.Edit {
		limit -= 1000 // room for another font
	}
	add = max(0, min(add, limit-n))
	at := pick(k, 1, n, 1+k.U(n), 1+k.U(n))
	pad := make([]*Glyph, add)
	ops := &T2Glyph{toks: []t2tok{{op: 14}}}
	for i := range pad {
		pad[i] = &Glyph{Pad: true}
		if f.CFF {
			pad[i].Ops = ops
		}
	}
	for _, g := range f.Glyphs {
		for i := range g.Comps {
			if at <= g.Comps[i].GID {
				g.Comps[i].GID += add
			}
		}
	}
	f.Glyphs = slices.Insert(f.Glyphs, at, pad...)
	k.drawn = nil
	for i, g := range f.Glyphs {
		if !g.Pad {
			k.drawn = append(k.drawn, i)
		}
	}
	if m := f.CFFM; m != nil {
		m.ISOAdobe = false
		m.FDSel = slices.Insert(m.FDSel, at, make([]int, add)...)
	}
}

// ---- TrueType glyphs ----

func (k *Case) genCoord(style int) int {
	switch style {
	case 0:
		return k.U(200) - 100
	case 1:
		return k.U(4000) - 1000
	case 2:
		return k.U(65536) - 32768
	}
	return pick(k, 0, 1, -1, 255, 256, -255, -256, 257, 127, -128)
}

func (k *Case) genContour(style, maxPts int) []Pt {
	n := 1 + k.I(0, maxPts-1)
	if k.P(70) {
		n += 2
	}
	onMode := k.U(4) // 0 mixed, 1 all on, 2 all off, 3 mostly on
	pts := make([]Pt, 0, n)
	for i := 0; i < n; i++ {
		p := Pt{k.genCoord(style), k.genCoord(style), true}
		if 0 < len(pts) {
			q := pts[len(pts)-1]
			switch k.U(8) {
			case 1:
				p.X = q.X
			case 2:
				p.Y = q.Y
			case 3: // delta at the edge of the one-byte range
				p.X = q.X + pick(k, 255, -255, 256, -256, 0, 1, -1)
			case 4:
				p = q
			}
		}
		switch onMode {
		case 0:
			p.On = !k.B()
		case 2:
			p.On = false
		case 3:
			p.On = !k.P(20)
		}
		pts = append(pts, p)
	}
	return pts
}

// genRun draws a contour in which many points have the same flags.
func (k *Case) genRun() []Pt {
	n := pick(k, 255, 256, 257, 258, 259, 300, 512, 513, 520, 252, 253, 254, 505, 506, 507, 761, 762, 763, 3000)
	dx, dy := pick(k, 0, 1, -1, 3, 20), pick(k, 0, 1, -2, 7, -20)
	on, alt := k.B(), k.P(20)
	p := Pt{k.genCoord(0), k.genCoord(0), on}
	var pts []Pt
	for i := 0; i < n; i++ {
		pts = append(pts, p)
		p.X += dx
		p.Y += dy
		if alt && i == n/2 {
			p.On = !on
		}
	}
	return pts
}

// genSpecks draws many contours of a few points.
func (k *Case) genSpecks() [][]Pt {
	n := pick(k, 127, 128, 255, 256, 257, 300, 600, 1500)
	r := k.rng()
	x, y := 0, 0
	var cs [][]Pt
	for ; 0 < n; n-- {
		var c []Pt
		for i := 1 + r.n(4); 0 < i; i-- {
			c = append(c, Pt{x, y, r.p(70)})
			x, y = x+r.n(60)-28, y+r.n(600)-300
		}
		cs = append(cs, c)
	}
	return cs
}

// clampDeltas keeps every coordinate and every delta within 16 bits.
func clampDeltas(cs [][]Pt, lim int) {
	px, py := 0, 0
	for _, c := range cs {
		for i := range c {
			c[i].X = clampi(clampi(c[i].X, -lim, lim), px-32768, px+32767)
			c[i].Y = clampi(clampi(c[i].Y, -lim, lim), py-32768, py+32767)
			px, py = c[i].X, c[i].Y
		}
	}
}

func (k *Case) genTTGlyphs(f *Font, n int, o FontOpt) {
	var gl []*Glyph
	depth := make([]int, 0, n)
	points := make([]int, 0, n)
	small := 40 < n
	deep := k.P(15) // chains of components
	for i := 0; i < n; i++ {
		g := &Glyph{}
		d, np := 0, 0
		kind := k.U(100)
		switch {
		case kind < 65 || len(gl) == 0 && kind < 80:
			style := pick(k, 1, 0, 3, 1)
			lim := 32767
			if o.Wide && k.P(40) {
				style = 2
			}
			nc, maxPts := 1+k.I(0, 3), 10
			if small {
				nc, maxPts = 1, 3
			} else if k.P(3) {
				maxPts = 300 // more points than a flag repeat can cover
			}
			long := -1
			if !small && k.P(4) {
				long = k.U(nc)
			}
			for j := 0; j < nc; j++ {
				c := k.genContour(style, maxPts)
				if j == long {
					c = k.genRun()
				}
				np += len(c)
				g.Contours = append(g.Contours, c)
			}
			if !small && k.P(1) {
				g.Contours = append(g.Contours, k.genSpecks()...)
				np = 500 // not to be used much
			}
			clampDeltas(g.Contours, lim)
			if k.P(30) {
				g.Instr = k.blob(k.I(1, 40))
				if k.P(3) {
					g.Instr = k.blob(pick(k, 252, 253, 254, 506, 507, 761, 762, 763, 1000, 32767, 32768, 65535))
				}
			}
			g.Overlap = k.P(15)
		case kind < 85 && 0 < len(gl):
			for j := 1 + k.I(0, 3); 0 < j; j-- {
				t := k.U(len(gl))
				if deep {
					for q := range gl {
						if depth[t] < depth[q] {
							t = q
						}
					}
				}
				if 7 < depth[t] || 400 < np+points[t] {
					continue
				}
				c := Comp{GID: t, DX: k.genCoord(k.U(2)), DY: k.genCoord(k.U(2)), Words: k.P(30), Kind: pick(k, 0, 0, 1, 2, 3)}
				if k.P(30) {
					c.DX, c.DY = pick(k, 0, 127, -128, 128, -129), pick(k, 0, 127, -128, 128, -129)
				}
				for m := range c.M {
					c.M[m] = pick(k, 16384, 8192, -16384, 0, k.U(65536)-32768, 32767, -32768)
				}
				for _, fl := range []uint16{0x0004, 0x0200, 0x0400, 0x1000} {
					if k.P(25) {
						c.Flags |= fl
					}
				}
				ng := &Glyph{Comps: append(append([]Comp{}, g.Comps...), c)}
				if !fits(gl, ng) {
					c.Kind, c.DX, c.DY = 0, 0, 0
					ng.Comps[len(ng.Comps)-1] = c
					if !fits(gl, ng) {
						continue
					}
				}
				g.Comps = ng.Comps
				d = max(d, depth[t]+1)
				np += points[t]
			}
			if 0 < len(g.Comps) && k.P(30) {
				g.HasInstr = true
				g.Instr = k.blob(k.I(0, 30))
				if k.P(8) {
					g.Instr = k.blob(pick(k, 252, 253, 254, 506, 507, 761, 762))
				}
			}
		case kind < 90:
			g.ZeroConts = true
		}
		gl = append(gl, g)
		depth = append(depth, d)
		points = append(points, np)
	}
	// component references may point forwards as well
	if 1 < n && k.B() {
		pos := make([]int, n)
		for i := range pos {
			pos[i] = i
		}
		for i := n - 1; 0 < i; i-- {
			j := i - k.U(i+1)
			pos[i], pos[j] = pos[j], pos[i]
		}
		out := make([]*Glyph, n)
		for i, g := range gl {
			for j := range g.Comps {
				g.Comps[j].GID = pos[g.Comps[j].GID]
			}
			out[pos[i]] = g
		}
		gl = out
	}
	f.Glyphs = gl
	for _, g := range gl {
		if o.Edit {
			g.Comps = slices.DeleteFunc(g.Comps, func(c Comp) bool { return c.GID == 0 })
			if len(g.Comps) == 0 && g.HasInstr {
				g.HasInstr, g.Instr = false, nil
			}
		}
	}
	for i, g := range gl {
		if g.isEmpty() {
			continue
		}
		g.BBox = trueBBox(gl, i)
		if !o.Sane && k.P(12) {
			g.BBox = [4]int{k.genCoord(2), k.genCoord(2), k.genCoord(2), k.genCoord(2)}
		}
	}
}

// fits reports whether every point of the composite stays well within 16 bits.
func fits(gl []*Glyph, g *Glyph) bool {
	cs, b := refPointsOf(append(append([]*Glyph{}, gl...), g), len(gl), 0)
	for _, c := range cs {
		for _, p := range c {
			if 32000 < math.Abs(p.x)+b || 32000 < math.Abs(p.y)+b {
				return false
			}
		}
	}
	// each product of the transform separately stays within 16 bits as well
	for _, c := range g.Comps {
		sub, _ := refPointsOf(gl, c.GID, 0)
		m := c.matrix()
		for _, s := range sub {
			for _, p := range s {
				if 32000 < math.Abs(m[0]*p.x)+math.Abs(m[2]*p.y)+math.Abs(float64(c.DX)) || 32000 < math.Abs(m[1]*p.x)+math.Abs(m[3]*p.y)+math.Abs(float64(c.DY)) {
					return false
				}
			}
		}
	}
	return true
}

func trueBBox(gl []*Glyph, i int) [4]int {
	cs, _ := refPointsOf(gl, i, 0)
	first := true
	var x0, y0, x1, y1 float64
	for _, c := range cs {
		for _, p := range c {
			if first {
				x0, y0, x1, y1 = p.x, p.y, p.x, p.y
				first = false
			}
			x0, y0, x1, y1 = math.Min(x0, p.x), math.Min(y0, p.y), math.Max(x1, p.x), math.Max(y1, p.y)
		}
	}
	return [4]int{int(math.Round(x0)), int(math.Round(y0)), int(math.Round(x1)), int(math.Round(y1))}
}

// ---- metrics ----

func (k *Case) genMetrics(f *Font, o FontOpt) {
	n := f.N()
	f.NHM = pick(k, n, 1+k.U(n), 1+k.U(n), 1)
	if f.CFF {
		f.NHM = n
		if k.P(20) {
			f.NHM = 1 + k.U(n)
		}
	}
	lsbMode := k.U(3) // 0 xMin everywhere, 1 mixed, 2 arbitrary
	wide := k.P(30)
	for i, g := range f.Glyphs {
		if g.Pad {
			h := int(mix(uint64(i)))
			g.Adv, g.LSB = h&0x3FFF, 0
			continue
		}
		if wide {
			g.Adv, g.LSB = k.U(65536), k.U(65536)-32768
		} else {
			g.Adv, g.LSB = k.U(2500), k.U(300)-100
		}
		if !f.CFF && (lsbMode == 0 || lsbMode == 1 && !k.P(20)) {
			g.LSB = 0
			if !g.isEmpty() {
				g.LSB = g.BBox[0]
			}
		}
	}
	for i := f.NHM; i < n; i++ {
		f.Glyphs[i].Adv = f.Glyphs[f.NHM-1].Adv
	}
	if !f.CFF && k.P(15) {
		// the bearings of either part are the left edges of other glyphs
		lo, hi, shift := 0, f.NHM, k.U(2*n)-n
		if k.B() {
			lo, hi, shift = f.NHM, n, 1-k.U(f.NHM+2)
		}
		for i := lo; i < hi; i++ {
			g := f.Glyphs[i]
			if o := f.Glyphs[((i+shift)%n+n)%n]; o.isEmpty() {
				g.LSB = 0
			} else {
				g.LSB = o.BBox[0]
			}
		}
	}
	if !o.NoVert && k.P(25) {
		f.NVM = 1 + k.U(n)
		for i, g := range f.Glyphs {
			if g.Pad {
				h := int(mix(uint64(i)))
				g.VAdv, g.TSB = h&0x3FFF, h>>16&0x3FF
			} else if g.VAdv, g.TSB = k.U(3000), k.U(65536)-32768; wide {
				g.VAdv = k.U(65536)
			}
			if f.NVM <= i {
				g.VAdv = f.Glyphs[f.NVM-1].VAdv
			}
		}
	}
}

// ---- glyph names ----

const nameChars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789._"

func (k *Case) genGlyphName(maxLen int) string {
	n := 1 + k.I(0, 11)
	if k.P(4) {
		n = pick(k, 62, 63, maxLen)
	}
	n = min(n, maxLen)
	b := k.blob(n)
	for i := range b {
		b[i] = nameChars[int(b[i])%len(nameChars)]
	}
	return string(b)
}

func (k *Case) genNames(f *Font, o FontOpt) {
	used := map[string]bool{}
	uniq := func(s string) string {
		for i := 0; used[s]; i++ {
			s = fmt.Sprintf("%.50s.%d", s, i)
		}
		used[s] = true
		return s
	}
	if !f.CFF {
		f.PostV = pick(k, 2, 3, 2, 2)
		if 65270 < f.N() {
			f.PostV = 3
		}
		if f.N() == 258 && k.P(60) {
			f.PostV = 1
		}
		if f.PostV == 1 {
			for i, g := range f.Glyphs {
				g.Name = macNames[i]
			}
			return
		}
		if f.PostV == 3 {
			return
		}
		f.Post.CustomStd = k.P(10)
		f.Post.UnusedStrings = k.I(0, 2)
		f.Post.DupStrings = k.P(10)
	} else {
		f.PostV = 3
		if f.CFFM.ISOAdobe {
			for i, g := range f.Glyphs {
				g.Name = cffStd[i]
			}
			return
		}
	}
	std := macNames
	if f.CFF {
		std = cffStd
	}
	custom := k.P(10) || 250 < f.N() && k.P(40) // no standard names
	for i, g := range f.Glyphs {
		var s string
		if (custom || g.Pad) && 0 < i {
			g.Name = uniq(fmt.Sprintf("custom%d", i))
			continue
		}
		switch k.U(10) {
		case 0, 1, 2, 3:
			s = std[1+k.U(len(std)-1)]
		case 4, 5:
			s = fmt.Sprintf("glyph%05d", i)
		case 6:
			if o.Unique || len(used) == 0 || f.CFF {
				s = k.genGlyphName(63)
				break
			}
			g.Name = f.Glyphs[k.U(i)].Name // a duplicate
			continue
		case 7:
			if !o.Unique && !f.CFF && k.P(20) {
				g.Name = ""
				continue
			}
			s = fmt.Sprintf("uni%04X", 0x20+i)
		default:
			s = k.genGlyphName(63)
		}
		if i == 0 && (f.CFF || !k.P(20)) {
			s = ".notdef"
		}
		g.Name = uniq(s)
	}
}

// ---- character map ----

// blockRune draws a rune at the edge of a Unicode block.
func (k *Case) blockRune() rune {
	u := unicodeBlocks[k.U(len(unicodeBlocks))]
	bl := u.blocks[k.U(len(u.blocks))]
	r := pick(k, bl[0], bl[1], bl[1]+1, bl[0]-1, bl[0]+rune(k.U(int(bl[1]-bl[0])+1)))
	if r < 0x20 || 0xD800 <= r && r < 0xE000 || 0xFFFE <= r && r <= 0xFFFF || 0x10FFFF < r {
		return 0x21
	}
	return r
}

func (k *Case) genRuneMap(f *Font, plain bool) map[rune]int {
	m := map[rune]int{}
	n := f.N()
	if n < 2 {
		if !plain && k.B() {
			m[rune(0x20+k.U(90))] = 0
		}
		return m
	}
	gid := func() int { return 1 + k.U(n-1) }
	for i := k.I(0, 4); 0 < i; i-- {
		var start rune
		switch k.U(9) {
		case 8:
			start = k.blockRune()
		case 0, 1:
			start = rune(0x20 + k.U(0x60))
		case 2:
			start = rune(0xA0 + k.U(0x500))
		case 3:
			start = rune(0xE000 + k.U(0x1900))
		case 4:
			start = rune(k.U(0xD800))
		case 5:
			start = rune(0x10000 + k.U(0x100000))
		case 6:
			start = pick(k, rune(0xFFF0), 0xFFFD, 0xFF00, 0x7F, 0xFE, 0x7FFE, 0x8000, 0xD7FE, 0x10000, 0x10FFF0)
		case 7:
			start = rune(0x4E00 + k.U(0x5000))
		}
		run := 1 + k.I(0, 20)
		mode := k.U(4)
		g := gid()
		for j := 0; j < run; j++ {
			r := start + rune(j)
			if 0xD800 <= r && r < 0xE000 || 0xFFFE <= r && r <= 0xFFFF || 0x10FFFF < r {
				continue
			}
			switch mode {
			case 0: // contiguous
				m[r] = g
				g++
				if n <= g {
					g = 1
				}
			case 1: // all to one glyph
				m[r] = g
			case 2:
				m[r] = gid()
			case 3: // contiguous with holes and jumps
				if k.P(20) {
					g = gid()
				}
				if !k.P(15) {
					m[r] = g
				}
				g++
				if n <= g {
					g = 1
				}
			}
		}
	}
	// keep most glyphs reachable
	if k.P(60) {
		base := pick(k, 0x21, 0x61, 0x410, 0x3041, 0x1F600, 0xF000)
		for g := 1; g < n && g < 120; g++ {
			if !k.P(10) {
				m[rune(base+g)] = g
			}
		}
	}
	if k.P(20) { // the first and last runes of something
		for i := k.I(1, 3); 0 < i; i-- {
			m[pick(k, rune(0xFF), 0, 0x1F, 0x20, 0x7E, 0x80, 0x9F, 0x100, 0xD7FF, 0xE000, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1FFFF, 0x10FFFF)] = pick(k, gid(), 1, n-1)
		}
	}
	if !plain && k.P(15) {
		m[rune(0x20+k.U(90))] = 0
	}
	return m
}

func restrict(m map[rune]int, lo, hi rune) map[rune]int {
	out := map[rune]int{}
	for r, g := range m {
		if lo <= r && r <= hi {
			out[r] = g
		}
	}
	return out
}

func (k *Case) genCmap(f *Font, o FontOpt) {
	base := k.genRuneMap(f, o.PlainMap)
	bmp := func() map[rune]int { return restrict(base, 0, 0xFFFE) }
	astral := len(restrict(base, 0x10000, 0x10FFFF)) != 0
	all := func() map[rune]int { return restrict(base, 0, 0x10FFFF) }
	layout := k.U(11)
	if astral && layout < 4 && !k.P(20) {
		layout = 4 + layout
	}
	if layout != 5 && layout != 7 {
		delete(base, 0xFFFF) // the last segment of format 4
	}
	add := func(p, e, format int, m map[rune]int, more ...[2]int) {
		f.Subs = append(f.Subs, &Sub{Platform: p, Encoding: e, Format: format, Map: m, more: more})
	}
	mac := func() {
		ok := true
		for r, g := range base {
			if r < 256 && 255 < g {
				ok = false
			}
		}
		if ok && k.B() {
			add(1, 0, 0, restrict(base, 0, 255))
		} else if m := restrict(base, 0x20, 0x7E); 0 < len(m) {
			add(1, 0, 6, m)
		}
	}
	switch layout {
	case 0:
		add(0, 3, 4, bmp(), [2]int{3, 1})
	case 1:
		add(3, 1, 4, bmp())
	case 2:
		add(0, 3, 4, bmp())
		mac()
		add(3, 1, 4, bmp())
	case 3:
		mac()
		add(3, pick(k, 1, 0), 4, bmp())
	case 4:
		add(0, 3, 4, bmp())
		add(3, 10, 12, all())
	case 5:
		add(0, 4, 12, all(), [2]int{3, 10})
	case 6:
		add(0, 3, 4, bmp())
		if k.B() {
			add(0, 5, 14, map[rune]int{})
		}
		mac()
		add(3, 1, 4, bmp())
		add(3, 10, 12, all())
	case 7:
		mac()
		add(3, 10, 12, all())
	case 8: // the subtable consulted first does not have all
		part := map[rune]int{}
		d := rune(2 + k.U(3))
		for r, g := range base {
			if r%d != 0 {
				part[r] = g
			}
		}
		add(0, 4, 12, part)
		mac()
		add(3, 1, 4, bmp())
	case 10: // only a subtable for the Mac
		if mac(); len(f.Subs) == 0 {
			add(3, 1, 4, bmp())
		}
	case 9:
		rs := sortedRunes(bmp())
		if 0 < len(rs) {
			run := map[rune]int{}
			for r := rs[k.U(len(rs))]; len(run) < 60; r++ {
				g, ok := base[r]
				if !ok || 0xFFFD < r {
					break
				}
				run[r] = g
			}
			add(0, 3, 6, run)
		}
		add(3, 1, 4, bmp())
	}
}

// ---- kern ----

func (k *Case) genPairs(n int) []KernPair {
	var ps []KernPair
	seen := map[[2]int]bool{}
	wide := k.P(30)
	for i := k.I(0, 24); 0 < i; i-- {
		p := KernPair{k.U(n), k.U(n), k.U(400) - 200}
		if wide {
			p.V = k.U(4000) - 2000
		}
		if seen[[2]int{p.L, p.R}] {
			continue
		}
		seen[[2]int{p.L, p.R}] = true
		ps = append(ps, p)
	}
	return ps
}

func sortPairs(ps []KernPair) {
	for i := 1; i < len(ps); i++ {
		for j := i; 0 < j && (ps[j].L < ps[j-1].L || ps[j].L == ps[j-1].L && ps[j].R < ps[j-1].R); j-- {
			ps[j], ps[j-1] = ps[j-1], ps[j]
		}
	}
}

func (k *Case) genKern(f *Font) {
	f.HasKern = true
	for i := k.I(1, 3); 0 < i; i-- {
		s := KernSub{Pairs: k.genPairs(f.N())}
		sortPairs(s.Pairs)
		f.Kern = append(f.Kern, s)
	}
}

// ---- headers ----

func (k *Case) genHeaders(f *Font, o FontOpt) {
	i16 := func() int { return k.U(65536) - 32768 }
	f.Head = HeadModel{Revision: uint32(k.U(1 << 32)), Flags: k.U(65536), Created: int64(k.U(1 << 33)), Modified: int64(k.U(1 << 33)),
		BBox: [4]int{i16(), i16(), i16(), i16()}, MacStyle: k.U(65536), Lowest: k.U(65536), Direction: k.U(5) - 2}
	gen := func() HheaModel {
		if k.P(50) {
			return HheaModel{Asc: k.U(3000), Desc: -k.U(1000), Gap: k.U(500), AdvMax: k.U(3000), MinL: i16(), MinR: i16(), Ext: i16(), Rise: 1}
		}
		return HheaModel{Asc: i16(), Desc: i16(), Gap: i16(), AdvMax: k.U(65536), MinL: i16(), MinR: i16(), Ext: i16(), Rise: i16(), Run: i16(), Caret: i16()}
	}
	f.Hhea = gen()
	f.Vhea = gen()
	f.Vhea.Minor = pick(k, 0, 0x1000)
	f.Vhea.AdvMax = clampi(f.Vhea.AdvMax, 0, 32767)
	for i := range f.Maxp {
		f.Maxp[i] = k.U(65536)
	}
	f.Post.Angle = int32(uint32(k.U(1 << 32)))
	if k.P(60) {
		f.Post.Angle = int32(pick(k, 0, -12, 12, -9)) << 16
	}
	f.Post.UPos, f.Post.UThick = i16(), i16()
	f.Post.Fixed = uint32(k.U(2))
	f.Post.M42a, f.Post.M42b, f.Post.M1a, f.Post.M1b = uint32(k.U(1<<32)), uint32(k.U(1<<32)), uint32(k.U(1<<32)), uint32(k.U(1<<32))
	if k.P(85) {
		f.HasOS2 = true
		f.OS2 = OS2Model{Version: pick(k, 4, 3, 2, 1, 0, 5), Short: k.B(), F: k.blob(100)}
		// fields that matter for line metrics get a mix of plain and extreme values
		put := func(o, v int) { binary.BigEndian.PutUint16(f.OS2.F[o:], uint16(v)) }
		if k.P(70) {
			put(68, pick(k, 0, 800, k.U(4000), i16()))
			put(70, pick(k, 0, -200, -k.U(2000), i16()))
			put(72, pick(k, 0, 90, k.U(1000), i16()))
			put(74, pick(k, 0, 900, k.U(3000), k.U(65536)))
			put(76, pick(k, 0, 250, k.U(3000), k.U(65536)))
		}
	}
}

// ---- name table ----

func (k *Case) genText() string {
	n := 1 + k.I(0, 14)
	var s []rune
	for i := 0; i < n; i++ {
		switch k.U(6) {
		case 0, 1, 2, 3:
			s = append(s, rune(0x20+k.U(95)))
		case 4:
			s = append(s, rune(0xA0+k.U(0x1000)))
		case 5:
			r := rune(k.U(0x10FFFF))
			if !utf8.ValidRune(r) {
				r = 'x'
			}
			s = append(s, r)
		}
	}
	return string(s)
}

func (k *Case) genMacText() string {
	b := k.blob(1 + k.I(0, 14))
	s, _ := charmap.Macintosh.NewDecoder().Bytes(b)
	return string(s)
}

func (k *Case) genNameTable(f *Font) {
	for i := k.I(0, 8); 0 < i; i-- {
		r := NameRec{ID: pick(k, 1, 2, 4, 6, 16, 17, k.U(26), k.U(65536))}
		switch k.U(5) {
		case 0, 1:
			r.Platform, r.Encoding, r.Language = 3, pick(k, 1, 10, 0), pick(k, 0x409, 0x809, 0x407, k.U(65536))
			r.Text, r.Known = k.genText(), true
			r.Raw = utf16be(r.Text)
		case 2:
			r.Platform, r.Encoding, r.Language = 0, pick(k, 3, 4, 0), 0
			r.Text, r.Known = k.genText(), true
			r.Raw = utf16be(r.Text)
		case 3:
			r.Platform, r.Encoding, r.Language = 1, 0, pick(k, 0, 5)
			r.Text, r.Known = k.genMacText(), true
			enc, err := charmap.Macintosh.NewEncoder().Bytes([]byte(r.Text))
			if err != nil {
				enc, r.Known = []byte("x"), false
			}
			r.Raw = enc
		case 4:
			r.Platform, r.Encoding, r.Language = pick(k, 1, 2, 4, k.U(65536)), 1+k.U(30), k.U(65536)
			r.Raw = k.blob(k.I(0, 12))
			if r.Platform == 0 || r.Platform == 3 {
				r.Platform = 2
			}
		}
		f.Names = append(f.Names, r)
	}
	if k.P(12) {
		f.NameV1 = true
		for i := k.I(0, 2); 0 < i; i-- {
			f.LangTag = append(f.LangTag, pick(k, "en", "de-CH", "x-klingon", ""))
		}
	}
}
