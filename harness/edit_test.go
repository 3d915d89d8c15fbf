package harness

// A model of edited fonts (subset, merged, renamed) and the checks of a font against it.

import (
	"fmt"
	"math/bits"
	"sort"

	"github.com/tdewolff/font"
)

// mGlyph is a glyph of an edited font: glyph gid of a generated font.
type mGlyph struct {
	f     *Font
	gid   int
	inst  int  // tells apart glyphs of fonts that were merged
	empty bool // an emptied missing glyph
	noK   bool // kerning is gone
	noV   bool // vertical metrics are gone
	name  string
}

// mFont is an edited font.
type mFont struct {
	cff    bool
	trueV  bool
	gl     []*mGlyph
	runes  map[rune]map[int]bool // the acceptable glyphs of each mapped rune
	tables map[string]bool       // nil: not tracked
	named  bool                  // glyph names are stored
	rawMap bool                  // the map table was never rewritten
	hist   string
}

func (m *mFont) N() int { return len(m.gl) }

func modelOf(f *Font) *mFont {
	m := &mFont{rawMap: true, cff: f.CFF, trueV: f.TrueTag, runes: map[rune]map[int]bool{}, tables: map[string]bool{}, named: f.CFF || f.PostV != 3}
	for i := range f.Glyphs {
		g := &mGlyph{f: f, gid: i, name: f.wantName(i)}
		m.gl = append(m.gl, g)
	}
	rm, amb := f.runeMap()
	for r, g := range rm {
		if amb[r] {
			panic("ambiguous map")
		}
		if g != 0 {
			m.runes[r] = map[int]bool{g: true}
		}
	}
	for t := range f.tables {
		m.tables[t] = true
	}
	m.hist = "font"
	return m
}

// refComps are the components of a glyph in the model, -1 where there is none.
func (g *mGlyph) comps() []Comp {
	if g.empty {
		return nil
	}
	return g.f.Glyphs[g.gid].Comps
}

func (g *mGlyph) same(o *mGlyph) bool { return g.f == o.f && g.gid == o.gid && g.inst == o.inst }

func (m *mFont) kern(i, j int) int {
	a, b := m.gl[i], m.gl[j]
	if a.f != b.f || a.inst != b.inst || a.noK || b.noK || !a.f.HasKern {
		return 0
	}
	return a.f.refKern(a.gid, b.gid)
}

var minTables = map[string]bool{"DSIG": true, "cmap": true, "head": true, "hhea": true, "hmtx": true, "maxp": true, "name": true, "OS/2": true, "post": true, "glyf": true, "loca": true, "CFF ": true}
var pdfTrueType = map[string]bool{"DSIG": true, "glyf": true, "head": true, "hhea": true, "hmtx": true, "loca": true, "maxp": true, "cvt ": true, "fpgm": true, "prep": true}
var pdfCFF = map[string]bool{"DSIG": true, "cmap": true, "CFF ": true, "head": true, "hhea": true, "hmtx": true, "maxp": true}

// selection is the set of tables that a subset has.
func (m *mFont) selection(opt []string) map[string]bool {
	t := map[string]bool{}
	for tag := range m.tables {
		keep := false
		switch {
		case len(opt) == 1 && opt[0] == "all":
			keep = true
		case len(opt) == 1 && opt[0] == "min":
			keep = minTables[tag]
		case len(opt) == 1 && opt[0] == "pdf":
			keep = pdfTrueType[tag]
			if m.cff {
				keep = pdfCFF[tag]
			}
		default:
			for _, o := range opt {
				keep = keep || o == tag
			}
		}
		if keep {
			t[tag] = true
		}
	}
	return t
}

// embedded tells whether a font with these tables can only be parsed as an embedded one; ok is
// false when it cannot be parsed at all.
func (m *mFont) parsable() (embedded, ok bool) {
	if m.tables["vmtx"] && !m.tables["vhea"] {
		return false, false
	}
	has := func(tags ...string) bool {
		for _, t := range tags {
			if !m.tables[t] {
				return false
			}
		}
		return true
	}
	if m.cff {
		if has("cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "CFF ", "OS/2") {
			return false, true
		}
		return true, has("cmap", "CFF ", "head", "hhea", "hmtx", "maxp")
	}
	if has("cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "glyf", "loca") {
		return false, true
	}
	return true, has("glyf", "head", "hhea", "hmtx", "loca", "maxp")
}

// subset is the model of subsetting. The order in which further components are appended is not
// specified: it is taken from the components of the result.
func (k *Case) modelSubset(m *mFont, list []uint16, opt []string, res *font.SFNT) *mFont {
	k.Helper()
	s := &mFont{cff: m.cff, trueV: m.trueV, runes: map[rune]map[int]bool{}, tables: m.selection(opt), named: m.cff && m.named}
	s.hist = fmt.Sprintf("%s, subset of %d", m.hist, len(list))
	idx := make([]int, len(list)) // source glyph of each
	add := func(src int) {
		g := *m.gl[src]
		g.empty = g.empty || src == 0
		g.noK = g.noK || src == 0 || !s.tables["kern"]
		if !s.named {
			g.name = ""
		}
		s.gl = append(s.gl, &g)
	}
	for i, g := range list {
		idx[i] = int(g)
		add(int(g))
	}
	if !m.cff {
		// what is needed
		need := map[int]bool{}
		have := map[int]bool{}
		for _, i := range idx {
			have[i] = true
		}
		var walk func(i int)
		walk = func(i int) {
			for _, c := range m.gl[i].comps() {
				j := m.find(i, c.GID)
				if !have[j] {
					need[j] = true
				}
				walk(j)
			}
		}
		for _, i := range idx {
			if i != 0 {
				walk(i)
			}
		}
		if n := int(res.NumGlyphs()); n != len(list)+len(need) {
			k.failf("%s: the subset has %d glyphs, expected %d with %d further components", s.hist, n, len(list)+len(need), len(need))
		}
		gl, err := refGlyphs(res.Tables)
		if err != nil {
			k.failf("%s: glyph tables of the subset: %v", s.hist, err)
		}
		// identify the further glyphs
		extra := make([]int, len(need))
		for i := range extra {
			extra[i] = -1
		}
		for round := 0; round < 10; round++ {
			at := func(i int) int {
				if i < len(idx) {
					return idx[i]
				}
				return extra[i-len(idx)]
			}
			for i, g := range gl {
				src := at(i)
				if src <= 0 {
					continue
				}
				cs := m.gl[src].comps()
				if len(cs) != len(g.Comps) {
					k.failf("%s: glyph %d has %d components, expected %d as glyph %d of its source", s.hist, i, len(g.Comps), len(cs), src)
				}
				for j, c := range g.Comps {
					if t := c.GID - len(idx); 0 <= t && t < len(extra) {
						want := m.find(src, cs[j].GID)
						if extra[t] != -1 && extra[t] != want {
							k.failf("%s: glyph %d is a component in place of both glyph %d and glyph %d of the source", s.hist, c.GID, extra[t], want)
						}
						extra[t] = want
					}
				}
			}
		}
		seen := map[int]bool{}
		for i, e := range extra {
			if e == -1 || seen[e] || !need[e] {
				k.failf("%s: glyph %d of the subset is no component that is needed (source glyph %d)", s.hist, len(list)+i, e)
			}
			seen[e] = true
			idx = append(idx, e)
			add(e)
		}
	} else if n := int(res.NumGlyphs()); n != len(list) && s.tables["maxp"] {
		k.failf("%s: the subset has %d glyphs, expected %d", s.hist, n, len(list))
	}
	if s.tables["cmap"] {
		for r, gs := range m.runes {
			for i, src := range idx {
				if gs[src] {
					if s.runes[r] == nil {
						s.runes[r] = map[int]bool{}
					}
					s.runes[r][i] = true
				}
			}
		}
	}
	if k := s.tables["kern"]; k {
		any := false
		for i := range s.gl {
			for j := range s.gl {
				any = any || s.kern(i, j) != 0
			}
		}
		if !any {
			s.tables["kern"] = false // may be left out
		}
	}
	return s
}

// find is the glyph of m that component gid of glyph i refers to.
func (m *mFont) find(i, gid int) int {
	g := m.gl[i]
	if i < len(m.gl) && gid < len(m.gl) && m.gl[gid].f == g.f && m.gl[gid].gid == gid && m.gl[gid].inst == g.inst {
		return gid
	}
	for j, o := range m.gl {
		if o.f == g.f && o.gid == gid && o.inst == g.inst {
			return j
		}
	}
	panic("component not in the font")
}

const firstRearranged = 0x21

// merge is the model of merging m2 into m; inst must be new.
func (m *mFont) merge(m2 *mFont, rearrange bool, inst int) (res *mFont, conflict bool) {
	res = &mFont{cff: m.cff, trueV: m.trueV, runes: map[rune]map[int]bool{}, tables: map[string]bool{}, named: m.named || m2.named}
	res.hist = fmt.Sprintf("%s + (%s)", m.hist, m2.hist)
	for t, b := range m.tables {
		res.tables[t] = b
	}
	if len(m2.gl) < 2 && !rearrange {
		*res = *m
		return res, false
	}
	for _, g := range m.gl {
		x := *g
		res.gl = append(res.gl, &x)
	}
	for _, g := range m2.gl[1:] {
		x := *g
		x.inst += inst
		x.noK = x.noK || !m2.tables["kern"]
		x.noV = x.noV || !m2.tables["vmtx"] || !m2.tables["vhea"]
		res.gl = append(res.gl, &x)
	}
	if m2.tables["kern"] && !m.tables["kern"] {
		any := false
		for i := 1; i < len(m2.gl); i++ {
			for j := 1; j < len(m2.gl); j++ {
				any = any || m2.kern(i, j) != 0
			}
		}
		res.tables["kern"] = any // may be left out
	}
	if !m.tables["post"] && !m.cff {
		res.named = false
		for _, g := range res.gl {
			g.name = ""
		}
	}
	if !m.tables["cmap"] {
		return res, false
	}
	if rearrange {
		for i := 1; i < len(res.gl); i++ {
			res.runes[rune(firstRearranged+i-1)] = map[int]bool{i: true}
		}
		return res, false
	}
	for r, gs := range m.runes {
		res.runes[r] = gs
	}
	for r, gs := range m2.runes {
		ngs := map[int]bool{}
		for g := range gs {
			if g != 0 {
				ngs[g+len(m.gl)-1] = true
			}
		}
		if len(ngs) == 0 {
			continue
		}
		if _, ok := res.runes[r]; ok {
			conflict = true
		}
		res.runes[r] = ngs
	}
	return res, conflict
}

// what to check of an edited font
const (
	partOutlines = 1 << iota
	partMetrics
	partCmap
	partKern
	partNames
	partAll = 1<<iota - 1
)

// checkEdited compares every query with the model.
func (k *Case) checkEdited(s *font.SFNT, m *mFont, what string, parts int) {
	k.Helper()
	what = what + " (" + m.hist + ")"
	if s == nil {
		return // could not be parsed again
	}
	if s.Hmtx == nil {
		// embedded CFF fonts come without metrics
		if !m.cff {
			k.failf("%s: no horizontal metrics", what)
		}
		parts &^= partMetrics | partKern
	}
	k.guard("queries on "+what, func() {
		n := m.N()
		if got := int(s.NumGlyphs()); got != n && m.tables["maxp"] {
			k.failf("%s: %d glyphs, expected %d", what, got, n)
		}
		step := 1 + n/300
		for i := 0; i < n; i += step {
			g := m.gl[i]
			src := g.f.Glyphs[g.gid]
			if parts&partOutlines != 0 {
				var want []Seg
				bound := 0.0
				if !g.empty {
					want, bound = g.f.wantPath(g.gid)
				}
				got, err := drawGlyph(s, i, 0, 0, 1)
				if err != nil {
					k.failf("%s: glyph %d: %v", what, i, err)
				}
				if err := samePath(got, want, pathTol(0, 0, 1, bound)); err != nil && bound == 0 {
					k.failf("%s: glyph %d (glyph %d of its source): %v", what, i, g.gid, err)
				}
				if !m.cff {
					box := src.BBox
					if g.empty || src.isEmpty() {
						box = [4]int{}
					}
					x0, y0, x1, y1 := s.GlyphBounds(uint16(i))
					if got := [4]int{int(x0), int(y0), int(x1), int(y1)}; got != box {
						k.failf("%s: glyph %d has bounds %v, expected %v", what, i, got, box)
					}
				}
			}
			if parts&partMetrics != 0 {
				if got := int(s.GlyphAdvance(uint16(i))); got != src.Adv {
					k.failf("%s: glyph %d (glyph %d of its source) has advance %d, expected %d", what, i, g.gid, got, src.Adv)
				}
				if got := int(s.Hmtx.LeftSideBearing(uint16(i))); got != src.LSB {
					k.failf("%s: glyph %d (glyph %d of its source) has bearing %d, expected %d", what, i, g.gid, got, src.LSB)
				}
				if 0 < g.f.NVM && !g.noV && s.Vmtx != nil && m.tables["vmtx"] && m.tables["vhea"] {
					if a, b := int(s.GlyphVerticalAdvance(uint16(i))), int(s.Vmtx.TopSideBearing(uint16(i))); a != src.VAdv || b != src.TSB {
						k.failf("%s: glyph %d (glyph %d of its source) has vertical advance %d and bearing %d, expected %d and %d", what, i, g.gid, a, b, src.VAdv, src.TSB)
					}
					k.class("vertical metrics")
				}
			}
		}
		if parts&partCmap != 0 && m.tables["cmap"] {
			back := map[int]map[rune]bool{}
			for r, gs := range m.runes {
				g := int(s.GlyphIndex(r))
				if !gs[g] {
					k.failf("%s: rune %U has glyph %d, expected one of %v", what, r, g, gs)
				}
				if back[g] == nil {
					back[g] = map[rune]bool{}
				}
				back[g][r] = true
			}
			for _, r := range k.nearRunes(m.runes) {
				if g := s.GlyphIndex(r); m.runes[r] == nil && g != 0 {
					k.failf("%s: rune %U has glyph %d, expected none", what, r, g)
				}
			}
			for i := 1; i < n; i += step {
				rs := s.GlyphToUnicode(uint16(i))
				seen := map[rune]bool{}
				for _, r := range rs {
					if !back[i][r] || seen[r] {
						k.failf("%s: glyph %d lists rune %U (all of them: %U), which it should not or not twice", what, i, r, rs)
					}
					seen[r] = true
				}
				if len(seen) != len(back[i]) {
					k.failf("%s: glyph %d has runes %U, expected %d of them", what, i, rs, len(back[i]))
				}
			}
		}
		if parts&partKern != 0 {
			ks := 1 + n/40
			for i := 0; i < n; i += ks {
				for j := 0; j < n; j += ks {
					if i == 0 || j == 0 {
						if a, b := m.gl[i], m.gl[j]; !a.noK && !b.noK && (a.gid != 0 || !a.empty) && (b.gid != 0 || !b.empty) {
							// pairs with the missing glyph may go or stay
							continue
						}
					}
					want := m.kern(i, j)
					if got := int(s.Kerning(uint16(i), uint16(j))); got != want {
						k.failf("%s: kerning of %d and %d is %d, expected %d", what, i, j, got, want)
					}
				}
			}
		}
		if parts&partNames != 0 {
			names := make([]string, n)
			for i, g := range m.gl {
				names[i] = g.name
			}
			k.checkNames(s, names, what)
		}
	})
}

// nearRunes are runes to ask for that are likely to be wrong.
func (k *Case) nearRunes(m map[rune]map[int]bool) []rune {
	out := append([]rune{}, obsRunes...)
	n := 0
	for _, r := range sortedRuneSet(m) {
		out = append(out, r-1, r+1, r+0x10000, r^0x8000, r&0xFF, r&0xFFFF)
		if n++; 60 < n {
			break
		}
	}
	return out
}

func sortedRuneSet(m map[rune]map[int]bool) []rune {
	rs := make([]rune, 0, len(m))
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

// checkRewritten compares the tables of an edited font with the model by reference decoders.
func (k *Case) checkRewritten(t map[string][]byte, m *mFont, what string) {
	k.Helper()
	what = what + " (" + m.hist + ")"
	if m.cff {
		if !m.tables["CFF "] {
			return
		}
		c, err := refParseCFF(t["CFF "])
		if err != nil {
			k.failf("%s: CFF table: %v", what, err)
		}
		if len(c.chars) != m.N() {
			k.failf("%s: CFF table has %d glyphs, expected %d", what, len(c.chars), m.N())
		}
		for i := 0; i < m.N(); i += 1 + m.N()/300 {
			g := m.gl[i]
			var want []Seg
			if !g.empty {
				want, _ = g.f.wantPath(g.gid)
			}
			got, err := c.path(i)
			if err != nil {
				k.failf("%s: reference decoder: glyph %d: %v", what, i, err)
			}
			if err := samePath(got, want, pathTol(0, 0, 1, 0)); err != nil {
				k.failf("%s: reference decoder: glyph %d (glyph %d of its source): %v", what, i, g.gid, err)
			}
			if c.names[i] != g.name && i != 0 {
				k.failf("%s: reference decoder: glyph %d is named %q, expected %q", what, i, c.names[i], g.name)
			}
		}
		return
	}
	if !m.tables["glyf"] || !m.tables["loca"] || !m.tables["head"] || !m.tables["maxp"] {
		return
	}
	gl, err := refGlyphs(t)
	if err != nil {
		k.failf("%s: %v", what, err)
	}
	if len(gl) != m.N() {
		k.failf("%s: glyph locations for %d glyphs, expected %d", what, len(gl), m.N())
	}
	for i, g := range m.gl {
		want := g.f.Glyphs[g.gid]
		if g.empty {
			want = &Glyph{}
		}
		got := *gl[i]
		got.Comps = append([]Comp{}, got.Comps...)
		for j := range got.Comps {
			c := &got.Comps[j]
			if m.N() <= c.GID || m.gl[c.GID].f != g.f || m.gl[c.GID].inst != g.inst {
				c.GID = -1 - c.GID // a glyph of another font
			} else {
				c.GID = m.gl[c.GID].gid
			}
		}
		if err := sameGlyph(&got, want, sameGID); err != nil {
			k.failf("%s: reference decoder: glyph %d (glyph %d of its source): %v", what, i, g.gid, err)
		}
	}
}

func searchFields(b []byte, p, n, size int) error {
	es := bits.Len(uint(n)) - 1
	sr := size << es
	if be16(b, p) != sr&0xFFFF || be16(b, p+2) != es || be16(b, p+4) != (n*size-sr)&0xFFFF {
		return fmt.Errorf("search fields %d %d %d for %d entries of %d", be16(b, p), be16(b, p+2), be16(b, p+4), n, size)
	}
	return nil
}

// refCmap reads a table with subtables of formats 4 and 12 strictly.
func refCmap(b []byte, n int) (subs []map[rune]int, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("cmap: %v", r)
		}
	}()
	if be16(b, 0) != 0 {
		return nil, fmt.Errorf("cmap: version %d", be16(b, 0))
	}
	nt := be16(b, 2)
	offs := map[int]bool{}
	windows := nt == 0
	defer func() {
		if err == nil && !windows {
			err = fmt.Errorf("cmap: no subtable for Windows")
		}
	}()
	for i := 0; i < nt; i++ {
		p := 4 + 8*i
		if 0 < i && be32(b, p) <= be32(b, p-8) {
			return nil, fmt.Errorf("cmap: encoding records not sorted")
		}
		pe := [2]int{be16(b, p), be16(b, p+2)}
		if pe[0] == 3 {
			windows = true
		}
		if pe[0] != 3 && pe[0] != 0 || pe[0] == 3 && pe[1] != 1 && pe[1] != 10 || 6 < pe[1] && pe[0] == 0 || pe == [2]int{0, 5} {
			return nil, fmt.Errorf("cmap: record %d is for platform %d encoding %d", i, pe[0], pe[1])
		}
		o := int(be32(b, p+4))
		if o < 4+8*nt || len(b) <= o {
			return nil, fmt.Errorf("cmap: offset %d of %d", o, len(b))
		}
		if offs[o] {
			continue
		}
		offs[o] = true
		s := b[o:]
		m := map[rune]int{}
		switch be16(s, 0) {
		case 4:
			l := be16(s, 2)
			if len(s) < l {
				return nil, fmt.Errorf("cmap: format 4 length %d of %d", l, len(s))
			}
			s = s[:l]
			if be16(s, 4) != 0 {
				return nil, fmt.Errorf("cmap: language %d", be16(s, 4))
			}
			if be16(s, 6)&1 != 0 {
				return nil, fmt.Errorf("cmap: segCountX2 is odd")
			}
			c := be16(s, 6) / 2
			if err := searchFields(s, 8, c, 2); err != nil {
				return nil, fmt.Errorf("cmap format 4: %v", err)
			}
			if be16(s, 14+2*c) != 0 {
				return nil, fmt.Errorf("cmap: reservedPad is %d", be16(s, 14+2*c))
			}
			last := -1
			for j := 0; j < c; j++ {
				end, start := be16(s, 14+2*j), be16(s, 16+2*c+2*j)
				delta, ro := be16(s, 16+4*c+2*j), be16(s, 16+6*c+2*j)
				if end < start || start <= last {
					return nil, fmt.Errorf("cmap: segment %d is %04X-%04X after %04X", j, start, end, last)
				}
				last = end
				for r := start; r <= end; r++ {
					g := 0
					if ro == 0 {
						g = (r + delta) & 0xFFFF
					} else if g = be16(s, 16+6*c+2*j+ro+2*(r-start)); g != 0 {
						g = (g + delta) & 0xFFFF
					}
					if n <= g {
						return nil, fmt.Errorf("cmap: %U has glyph %d of %d", r, g, n)
					}
					m[rune(r)] = g
				}
			}
			if last != 0xFFFF {
				return nil, fmt.Errorf("cmap: last segment ends at %04X", last)
			}
		case 12:
			l, c := int(be32(s, 4)), int(be32(s, 12))
			if be32(s, 8) != 0 {
				return nil, fmt.Errorf("cmap: language %d", be32(s, 8))
			}
			if be16(s, 2) != 0 || l != 16+12*c || len(s) < l {
				return nil, fmt.Errorf("cmap: format 12 length %d for %d groups", l, c)
			}
			last := int64(-1)
			for j := 0; j < c; j++ {
				a, e, g := int64(be32(s, 16+12*j)), int64(be32(s, 20+12*j)), int64(be32(s, 24+12*j))
				if e < a || a <= last || 0x10FFFF < e {
					return nil, fmt.Errorf("cmap: group %d is %X-%X after %X", j, a, e, last)
				}
				if int64(n) <= g+e-a {
					return nil, fmt.Errorf("cmap: %X has glyph %d of %d", e, g+e-a, n)
				}
				last = e
				for r := a; r <= e; r++ {
					m[rune(r)] = int(g + r - a)
				}
			}
		default:
			return nil, fmt.Errorf("cmap: format %d", be16(s, 0))
		}
		subs = append(subs, m)
	}
	return subs, nil
}

// validTables checks that the tables of an edited font agree with each other.
func validTables(t map[string][]byte, m *mFont) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("a table is too short: %v", r)
		}
	}()
	n := m.N()
	if b, ok := t["maxp"]; ok {
		if be16(b, 4) != n {
			return fmt.Errorf("maxp says %d glyphs, expected %d", be16(b, 4), n)
		}
		want := 32
		if m.cff {
			want = 6
		}
		if len(b) != want {
			return fmt.Errorf("maxp has %d bytes", len(b))
		}
	}
	for _, p := range [][2]string{{"hhea", "hmtx"}, {"vhea", "vmtx"}} {
		h, ok1 := t[p[0]]
		x, ok2 := t[p[1]]
		if ok1 && ok2 {
			c := be16(h, 34)
			if c < 1 || n < c || len(x) != 4*c+2*(n-c) {
				return fmt.Errorf("%s counts %d metrics, %s has %d bytes for %d glyphs", p[0], c, p[1], len(x), n)
			}
			for i, g := range m.gl {
				j := min(i, c-1)
				adv, b := be16(x, 4*j), 0
				if i < c {
					b = bei16(x, 4*i+2)
				} else {
					b = bei16(x, 4*c+2*(i-c))
				}
				src := g.f.Glyphs[g.gid]
				if p[1] == "hmtx" && (adv != src.Adv || b != src.LSB) {
					return fmt.Errorf("hmtx: glyph %d has advance %d and bearing %d, expected %d and %d", i, adv, b, src.Adv, src.LSB)
				}
			}
		}
	}
	if b, ok := t["cmap"]; ok && !m.rawMap {
		subs, err := refCmap(b, n)
		if err != nil {
			return err
		}
		got := map[rune]int{}
		for _, s := range subs {
			for r, g := range s {
				if _, ok := got[r]; !ok {
					got[r] = g
				} else if got[r] != g {
					return fmt.Errorf("cmap: subtables differ for %U", r)
				}
			}
		}
		for r, g := range got {
			if g != 0 && !m.runes[r][g] {
				return fmt.Errorf("cmap: %U has glyph %d, expected %v", r, g, m.runes[r])
			}
		}
		for r, gs := range m.runes {
			if !gs[got[r]] {
				return fmt.Errorf("cmap: %U has glyph %d, expected %v", r, got[r], gs)
			}
		}
	}
	if b, ok := t["kern"]; ok {
		if be16(b, 0) != 0 {
			return fmt.Errorf("kern: version %d", be16(b, 0))
		}
		p := 4
		for i := be16(b, 2); 0 < i; i-- {
			l, c := be16(b, p+2), be16(b, p+6)
			if be16(b, p) != 0 || b[p+4] != 0 || l != 14+6*c {
				return fmt.Errorf("kern: subtable at %d has length %d for %d pairs", p, l, c)
			}
			if 0 < c {
				if err := searchFields(b, p+8, c, 6); err != nil {
					return fmt.Errorf("kern: %v", err)
				}
			}
			for j := 0; j < c; j++ {
				q := p + 14 + 6*j
				if n <= be16(b, q) || n <= be16(b, q+2) {
					return fmt.Errorf("kern: pair of glyphs %d and %d", be16(b, q), be16(b, q+2))
				}
				if 0 < j && be32(b, q) <= be32(b, q-6) {
					return fmt.Errorf("kern: pairs not sorted or not unique")
				}
			}
			p += l
		}
		if p != len(b) {
			return fmt.Errorf("kern: %d bytes after the subtables", len(b)-p)
		}
	}
	if b, ok := t["post"]; ok {
		switch v := be32(b, 0); v {
		case 0x20000:
			if be16(b, 32) != n {
				return fmt.Errorf("post: %d glyphs, expected %d", be16(b, 32), n)
			}
			strs := 0
			for p := 34 + 2*n; p < len(b); p += 1 + int(b[p]) {
				if 63 < b[p] || len(b) < p+1+int(b[p]) {
					return fmt.Errorf("post: string of %d bytes at %d of %d", b[p], p, len(b))
				}
				strs++
			}
			for i := 0; i < n; i++ {
				if x := be16(b, 34+2*i); 258+strs <= x {
					return fmt.Errorf("post: glyph %d has name %d of %d", i, x, 258+strs)
				}
			}
		case 0x30000:
			if len(b) != 32 {
				return fmt.Errorf("post: %d bytes", len(b))
			}
		case 0x10000:
			if len(b) != 32 || n != 258 {
				return fmt.Errorf("post: version 1 for %d glyphs", n)
			}
		default:
			return fmt.Errorf("post: version %x", v)
		}
	}
	return nil
}

// reparse writes an edited font and parses it again; nil when its tables do not suffice.
func (k *Case) reparse(s *font.SFNT, m *mFont, what string) *font.SFNT {
	k.Helper()
	embedded, ok := m.parsable()
	var b []byte
	k.guard("Write of "+what, func() { b = s.Write() })
	k.artifact("written", b)
	if _, err := refDirectory(b); err != nil {
		k.failf("%s (%s): written file: %v", what, m.hist, err)
	}
	if !ok {
		return nil
	}
	var s2 *font.SFNT
	var err error
	k.guard("parsing the written "+what, func() {
		if embedded {
			s2, err = font.ParseEmbeddedSFNT(b, 0)
		} else {
			s2, err = font.ParseSFNT(b, 0)
		}
	})
	if err != nil {
		k.failf("%s (%s): the written font is rejected: %v", what, m.hist, err)
	}
	return s2
}

// checkTables checks which tables there are.
func (k *Case) checkTables(s *font.SFNT, m *mFont, what string) {
	k.Helper()
	for t, want := range m.tables {
		if _, ok := s.Tables[t]; ok != want && t != "kern" {
			k.failf("%s (%s): table %q present: %v, expected %v", what, m.hist, t, ok, want)
		}
		if _, ok := s.Tables[t]; want && !ok {
			k.failf("%s (%s): table %q is missing", what, m.hist, t)
		}
	}
	for t := range s.Tables {
		if _, ok := m.tables[t]; !ok {
			k.failf("%s (%s): unexpected table %q", what, m.hist, t)
		}
	}
}

// disjoint gives f2 a character map that shares no rune with that of f.
func (k *Case) disjoint(f, f2 *Font) {
	taken, _ := f.runeMap()
	m := map[rune]int{}
	old, _ := f2.runeMap()
	shift := pick(k, rune(0), 0, 0x40, 0x400, 0x20000)
	for r, g := range old {
		r += shift
		if 0xD800 <= r && r < 0xE000 || 0x10FFFF < r || r&0xFFFF >= 0xFFFE {
			continue
		}
		if taken[r] == 0 && g != 0 {
			m[r] = g
		}
	}
	f2.Subs = []*Sub{{Platform: 3, Encoding: 10, Format: 12, Map: m}}
}

// genNameList draws one name per glyph.
func (k *Case) genNameList(n int, cff bool) []string {
	names := make([]string, n)
	mode := k.U(4)
	for i := range names {
		switch {
		case mode == 0:
			names[i] = fmt.Sprintf("g%d", i)
		case mode == 1:
			names[i] = macNames[i%len(macNames)]
		default:
			switch k.U(6) {
			case 0, 1:
				names[i] = macNames[k.U(len(macNames))]
			case 2:
				names[i] = cffStd[k.U(len(cffStd))]
			case 3:
				if 0 < i {
					names[i] = names[k.U(i)]
				}
			case 4:
				if !k.P(20) {
					names[i] = fmt.Sprintf("uni%04X", 0x20+i)
				}
			case 5:
				names[i] = k.genGlyphName(63)
			}
		}
	}
	if cff {
		names[0] = ".notdef"
	}
	return names
}

// rename is the model of SetGlyphNames.
func (m *mFont) rename(names []string) {
	gl := make([]*mGlyph, len(m.gl))
	for i, g := range m.gl {
		x := *g
		x.name = names[i]
		gl[i] = &x
	}
	m.gl = gl
	m.named = true
	m.hist += ", renamed"
}

var dictDefaults = map[int][]float64{256 + 1: {0}, 256 + 2: {0}, 256 + 3: {-100}, 256 + 4: {50}, 256 + 5: {0}, 256 + 6: {2}, 256 + 7: {0.001, 0, 0, 0.001, 0, 0}, 5: {0, 0, 0, 0}, 256 + 8: {0}}
var privDefaults = map[int][]float64{256 + 9: {0.039625}, 256 + 10: {7}, 256 + 11: {1}, 256 + 14: {0}, 256 + 17: {0}, 256 + 18: {0.06}, 256 + 19: {0}, 20: {0}, 21: {0}}

func near(a, b []float64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := a[i] - b[i]; 1e-7*max(a[i], -a[i]) < max(d, -d) {
			return false
		}
	}
	return true
}

// sameDicts compares the font-wide values of two CFF tables.
func (k *Case) sameDicts(src *refCFF, table []byte, what string) {
	k.Helper()
	c, err := refParseCFF(table)
	if err != nil {
		k.failf("%s: %v", what, err)
	}
	if c.name != src.name {
		k.failf("%s: font name %q, was %q", what, c.name, src.name)
	}
	sids := map[int]bool{0: true, 1: true, 256: true, 2: true, 3: true, 4: true, 256 + 21: true, 256 + 22: true}
	for op, v := range both(src.top, c.top) {
		if sids[op] {
			var s [2]string
			for i, x := range v {
				if 0 < len(x) {
					if s[i], err = []*refCFF{src, c}[i].str(int(x[len(x)-1])); err != nil {
						k.failf("%s: Top DICT operator %d: %v", what, op, err)
					}
				}
			}
			if s[0] != s[1] {
				k.failf("%s: Top DICT string %d was %q, is %q", what, op, s[0], s[1])
			}
			continue
		}
		for i := range v {
			if v[i] == nil {
				v[i] = dictDefaults[op]
			}
			if v[i] == nil && (op == 13 || op == 256+20) {
				v[i] = []float64{0} // no default; zero means nothing
			}
		}
		if op != 15 && op != 16 && op != 17 && op != 18 && !near(v[0], v[1]) {
			k.failf("%s: Top DICT operator %d was %v, is %v", what, op, v[0], v[1])
		}
	}
	if len(c.priv) != 1 {
		k.failf("%s: %d Private DICTs", what, len(c.priv))
	}
	for op, v := range both(src.priv[0], c.priv[0]) {
		for i := range v {
			if v[i] == nil {
				v[i] = privDefaults[op]
			}
			if v[i] == nil && (op == 10 || op == 11) {
				v[i] = []float64{0} // no default; zero means nothing
			}
		}
		if op != 19 && !near(v[0], v[1]) {
			k.failf("%s: Private DICT operator %d was %v, is %v", what, op, v[0], v[1])
		}
	}
}

func both(a, b map[int][]float64) map[int][][]float64 {
	m := map[int][][]float64{}
	for op, v := range a {
		m[op] = [][]float64{v, b[op]}
	}
	for op, v := range b {
		m[op] = [][]float64{a[op], v}
	}
	return m
}
