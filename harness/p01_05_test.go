package harness

import (
	"bytes"
	"fmt"
	"slices"
	"testing"

	"github.com/tdewolff/font"
)

// measured runs f under guard and fails when it allocates more than limit bytes in total.
func (k *Case) measured(what string, limit uint64, f func()) {
	k.Helper()
	a := allocBytes()
	k.guard(what, f)
	if a = allocBytes() - a; limit < a {
		k.failf("%s: allocated %d bytes, expected at most %d", what, a, limit)
	}
}

func parseLimit(n int) uint64 { return 256*uint64(n) + 80<<20 }

// parseMutant parses a broken font with one of the entry points; s is nil if it was refused.
func (k *Case) parseMutant(m *mutant) (s *font.SFNT, mode string) {
	var err error
	mode = "ParseSFNT"
	parse := font.ParseSFNT
	if k.P(25) {
		mode, parse = "ParseEmbeddedSFNT", font.ParseEmbeddedSFNT
	} else if k.U(400) == 399 {
		mode, parse = "ParseFont", font.ParseFont
	}
	in := bytes.Clone(m.b)
	k.measured(fmt.Sprintf("%s(index %d)", mode, m.index), parseLimit(len(m.b)), func() { s, err = parse(m.b, m.index) })
	if (s == nil) == (err == nil) {
		k.failf("%s: font %v, error %v", mode, s != nil, err)
	}
	if !bytes.Equal(in, m.b) {
		k.failf("%s changed its input", mode)
	}
	return
}

func TestP01(t *testing.T) {
	run(t, "P01", "the table directory of the damaged file is intact, so that the parsers of the damaged tables run, or the file is accepted", func(c *Ctx) {
		c.check("mutants", c.n(2500, 60000), func(k *Case) {
			m := k.genMutant(MutOpt{Dir: true, Real: 3})
			k.artifact("font", m.b)
			k.note("%v, index %d", m.what, m.index)
			s, mode := k.parseMutant(m)
			k.class(mode)
			k.classIf(s != nil, "accepted")
			k.classIf(s == nil, "refused")
			k.classIf(m.evil != "", "evil "+m.evil)
			if m.reach || s != nil {
				k.nontrivial(m.b, func() string { return fmt.Sprintf("%v: accepted %v", m, s != nil) })
			}
		})
		// every prefix of a font file, and every value of each byte of its first bytes
		c.check("prefixes", c.n(30, 600), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 4, NoExtra: true})
			b := f.bytes(k)
			k.artifact("font", b)
			step := 1 + len(b)/1500
			parse, mode := font.ParseSFNT, "ParseSFNT"
			if k.B() {
				parse, mode = font.ParseEmbeddedSFNT, "ParseEmbeddedSFNT"
			}
			for n := k.U(step); n < len(b); n += step {
				var s *font.SFNT
				var err error
				k.guard(fmt.Sprintf("%s of the first %d bytes", mode, n), func() { s, err = parse(b[:n:n], 0) })
				if (s == nil) == (err == nil) {
					k.failf("%s of the first %d bytes: font %v, error %v", mode, n, s != nil, err)
				}
			}
			// every prefix of one table
			tag := pick(k, sortedTags(f.tables)...)
			old := f.tables[tag]
			step = 1 + len(old)/400
			for n := 0; n <= len(old); n += step {
				f.tables[tag] = old[:n:n]
				nb := buildSFNT(f.version(), f.tables, nil)
				var s *font.SFNT
				var err error
				k.guard(fmt.Sprintf("%s with %d bytes of %s", mode, n, tag), func() { s, err = parse(nb, 0) })
				if (s == nil) == (err == nil) {
					k.failf("%s with %d bytes of %s: font %v, error %v", mode, n, tag, s != nil, err)
				}
			}
			k.class("%s cut", tag)
			k.nontrivial(b, func() string { return fmt.Sprintf("%v: all prefixes, %s of every length", f, tag) })
		})
	})
}

// sampleGIDs lists glyph IDs worth asking about in a font of n glyphs.
func (k *Case) sampleGIDs(n int) []uint16 {
	var g []uint16
	if n <= 40 {
		for i := 0; i < n; i++ {
			g = append(g, uint16(i))
		}
	} else {
		for i := 0; i < 25; i++ {
			g = append(g, uint16(k.U(n)))
		}
		g = append(g, 0, 1)
	}
	for _, x := range []int{n - 1, n, n + 1, 255, 256, 257, 258, 32767, 32768, 65534, 65535, k.U(65536)} {
		if 0 <= x && x < 65536 {
			g = append(g, uint16(x))
		}
	}
	slices.Sort(g)
	return slices.Compact(g)
}

var oddRunes = []rune{0, 1, -1, ' ', 'A', 'x', 'H', 0x7F, 0x80, 0xFF, 0x100, 0xD800, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF, 0x110000, 1<<31 - 1, -1 << 31, 0xFE0F, 0xF041}

// queryAll asks every question about a font.
func (k *Case) queryAll(s *font.SFNT, size, n int) (drawn, failed int) {
	limit := uint64(80<<20 + 64*size)
	q := func(what string, f func()) {
		k.measured(what, limit, f)
	}
	gids := k.sampleGIDs(n)
	if k.P(30) { // in a drawn order
		for i := len(gids) - 1; 0 < i; i-- {
			j := k.U(i + 1)
			gids[i], gids[j] = gids[j], gids[i]
		}
	}
	name := k.blob(k.U(5))
	q("font-wide queries", func() {
		s.NumGlyphs()
		s.UnitsPerEm()
		s.VerticalMetrics()
		for _, n := range []string{"", "A", ".notdef", "zero", "Evil", string(name)} {
			s.FindGlyphName(n)
		}
	})
	if s.Name != nil {
		q("name records", func() {
			for id := 0; id < 30; id++ {
				for i, r := range s.Name.Get(font.NameID(id)) {
					if 20 < i {
						break
					}
					_ = r.String()
				}
			}
			s.Name.Get(65535)
		})
	}
	runes := append(slices.Clone(oddRunes), rune(k.U(0x110000)), rune(k.U(0x300)))
	for _, r := range runes {
		q(fmt.Sprintf("GlyphIndex(%#x)", r), func() { s.GlyphIndex(r) })
	}
	if s.Cmap != nil {
		for i, sub := range s.Cmap.Subtables {
			if 3 < i {
				break
			}
			q(fmt.Sprintf("cmap subtable %d", i), func() {
				for _, r := range runes {
					sub.Get(r)
				}
				for _, g := range gids[:min(3, len(gids))] {
					sub.ToUnicode(g)
				}
			})
		}
	}
	prev := uint16(0)
	for _, g := range gids {
		g := g
		q(fmt.Sprintf("GlyphToUnicode(%d)", g), func() { s.GlyphToUnicode(g) })
		q(fmt.Sprintf("GlyphName(%d)", g), func() {
			s.FindGlyphName(s.GlyphName(g))
		})
		q(fmt.Sprintf("GlyphAdvance(%d)", g), func() { s.GlyphAdvance(g) })
		q(fmt.Sprintf("GlyphVerticalAdvance(%d)", g), func() { s.GlyphVerticalAdvance(g) })
		q(fmt.Sprintf("Kerning(%d, %d)", g, prev), func() { s.Kerning(g, prev); s.Kerning(prev, g) })
		q(fmt.Sprintf("GlyphPath(%d)", g), func() {
			var p countPather
			if err := s.GlyphPath(&p, g, uint16(g&31), 1, 2, 0.5, font.NoHinting); err != nil {
				failed++
			} else if 0 < p.n {
				drawn++
			}
		})
		q(fmt.Sprintf("GlyphBounds(%d)", g), func() { s.GlyphBounds(g) })
		if s.Hmtx != nil {
			q(fmt.Sprintf("Hmtx(%d)", g), func() { s.Hmtx.LeftSideBearing(g); s.Hmtx.Advance(g) })
		}
		if s.Vmtx != nil {
			q(fmt.Sprintf("Vmtx(%d)", g), func() { s.Vmtx.TopSideBearing(g); s.Vmtx.Advance(g) })
		}
		if s.Loca != nil {
			q(fmt.Sprintf("Loca(%d)", g), func() { s.Loca.Get(g) })
		}
		if s.Post != nil {
			q(fmt.Sprintf("Post(%d)", g), func() { s.Post.Find(s.Post.Get(g)) })
		}
		if s.Glyf != nil {
			q(fmt.Sprintf("Glyf(%d)", g), func() { s.Glyf.Get(g); s.Glyf.IsComposite(g) })
			q(fmt.Sprintf("Glyf.Dependencies(%d)", g), func() { s.Glyf.Dependencies(g) })
			q(fmt.Sprintf("Glyf.Contour(%d)", g), func() {
				if c, err := s.Glyf.Contour(g); err == nil && c != nil && len(c.XCoordinates) < 2000 {
					_ = c.String()
				}
			})
		}
		if s.CFF != nil {
			q(fmt.Sprintf("CFF(%d)", g), func() {
				s.CFF.PrivateDICT(g)
				s.CFF.GlyphName(g)
				s.CFF.TopDICT()
				s.CFF.Version()
			})
		}
		prev = g
	}
	return
}

type countPather struct{ n int }

func (p *countPather) MoveTo(x, y float64)             { p.n++ }
func (p *countPather) LineTo(x, y float64)             { p.n++ }
func (p *countPather) QuadTo(a, b, x, y float64)       { p.n++ }
func (p *countPather) CubeTo(a, b, c, d, x, y float64) { p.n++ }
func (p *countPather) Close()                          { p.n++ }

func TestP03(t *testing.T) {
	run(t, "P03", "a damaged font was accepted and asked every question for all of its glyphs (or a sample) and for glyph IDs, runes and names it does not have", func(c *Ctx) {
		c.check("queries", c.n(900, 40000), func(k *Case) {
			m := k.genMutant(MutOpt{Mild: true, Real: 1})
			k.artifact("font", m.b)
			k.note("%v, index %d", m.what, m.index)
			s, mode := k.parseMutant(m)
			if s == nil {
				k.class("refused")
				return
			}
			drawn, failed := k.queryAll(s, len(m.b), m.n)
			k.class(mode)
			k.classIf(m.evil != "", "evil "+m.evil)
			k.classIf(0 < failed, "some outline refused")
			k.classIf(0 < drawn, "some outline drawn")
			k.nontrivial(m.b, func() string { return fmt.Sprintf("%v: %d outlines drawn, %d refused", m, drawn, failed) })
		})
	})
}

// anyList draws any list of glyph IDs at all.
func (k *Case) anyList(n int) []uint16 {
	var l []uint16
	switch k.U(8) {
	case 0: // empty
	case 1: // every glyph
		for i := 0; i < n; i++ {
			l = append(l, uint16(i))
		}
	case 2: // very long
		for i := 0; i < pick(k, 300, 65535, 65536, 70000); i++ {
			l = append(l, uint16(i%max(1, n)))
		}
	case 3: // anything
		for i := k.U(12); 0 < i; i-- {
			l = append(l, uint16(k.U(65536)))
		}
	default:
		if !k.P(15) {
			l = append(l, 0)
		}
		for i := k.U(12); 0 < i; i-- {
			g := k.U(max(1, n))
			switch k.U(30) {
			case 0:
				g = n
			case 1:
				g = n + 1 + k.U(3)
			case 2:
				g = 65535
			}
			l = append(l, uint16(g))
		}
		if k.P(50) {
			slices.Sort(l)
		}
		if k.P(60) {
			l = slices.Compact(l)
		}
	}
	return l
}

func (k *Case) anyTables() []string {
	if k.P(60) {
		return []string{pick(k, "all", "min", "pdf")}
	}
	var t []string
	if k.P(40) { // all but a few
		drop := map[string]bool{}
		for i := 1 + k.U(2); 0 < i; i-- {
			drop[mutTags[k.U(len(mutTags))]] = true
		}
		for _, tag := range mutTags {
			if !drop[tag] {
				t = append(t, tag)
			}
		}
		return t
	}
	for i := k.U(6); 0 < i; i-- {
		t = append(t, pick(k, append([]string{"all", "min", "pdf", "", "zzzz", "cvt ", "prep"}, mutTags...)...))
	}
	return t
}

func TestP04(t *testing.T) {
	run(t, "P04", "a damaged font was accepted and then subset, merged, renamed or written, alone or in a sequence", func(c *Ctx) {
		c.check("rewrites", c.n(1100, 30000), func(k *Case) {
			const limit = 2 << 30
			m := k.genMutant(MutOpt{Mild: true, Real: 1})
			k.artifact("font", m.b)
			k.note("%v, index %d", m.what, m.index)
			s, mode := k.parseMutant(m)
			if s == nil {
				k.class("refused")
				return
			}
			var ops []string
			done, then := 0, false
			for i := 1 + k.U(4); 0 < i; i-- {
				n := max(int(s.NumGlyphs()), 1)
				op := k.U(8)
				if then { // straight after a subset
					op, then = pick(k, 3, 6, 6, 5), false
				}
				switch op {
				case 0, 1, 2:
					l, t := k.anyList(n), k.anyTables()
					what := fmt.Sprintf("Subset(%d glyphs %v, %q)", len(l), l[:min(20, len(l))], t)
					ops = append(ops, what)
					k.note("%s", what)
					var sub *font.SFNT
					var err error
					k.measured(what, limit, func() { sub, err = s.Subset(l, font.SubsetOptions{Tables: t}) })
					then = k.P(50)
					if (sub == nil) == (err == nil) {
						k.failf("%s: font %v, error %v", what, sub != nil, err)
					}
					if err != nil {
						k.class("Subset refused")
					} else {
						k.class("Subset done")
						done++
						s = sub
					}
				case 3, 4:
					var s2 *font.SFNT
					what := "Merge with itself"
					if !k.P(8) {
						var m2 *mutant
						if k.B() {
							m2 = k.genMutant(MutOpt{Mild: true})
							k.artifact("second", m2.b)
						} else {
							f := k.genFont(FontOpt{Flavour: pick(k, 1, 2), MaxN: 8, NoCID: k.B()})
							if m.base != nil && k.P(70) {
								f = k.genFont(FontOpt{Flavour: map[bool]int{false: 1, true: 2}[m.base.CFF], MaxN: 8, NoCID: true})
							}
							b := f.bytes(k)
							m2 = &mutant{b: b, what: []string{f.String()}}
						}
						s2, _ = k.parseMutant(m2)
						if s2 == nil {
							continue
						}
						what = fmt.Sprintf("Merge with %v", m2)
						if k.B() {
							s, s2 = s2, s
							what = "merged into " + what
						}
					} else {
						s2 = s
					}
					r := k.B()
					ops = append(ops, what)
					k.note("%s, rearrange %v", what, r)
					var err error
					k.measured(what, limit, func() { err = s.Merge(s2, font.MergeOptions{RearrangeCmap: r}) })
					if err != nil {
						k.class("Merge refused")
					} else {
						k.class("Merge done")
						done++
					}
				case 5:
					var out []byte
					ops = append(ops, "Write")
					k.note("Write")
					k.measured("Write", limit, func() { out = s.Write() })
					if _, err := refDirectory(out); err != nil && 0 < len(s.Tables) {
						k.failf("Write: %v", err)
					}
					done++
				case 6:
					ops = append(ops, "WriteWOFF2")
					k.note("WriteWOFF2")
					var out []byte
					var err error
					k.measured("WriteWOFF2", limit, func() { out, err = s.WriteWOFF2() })
					if (out == nil) == (err == nil) {
						k.failf("WriteWOFF2: %d bytes, error %v", len(out), err)
					}
					k.classIf(err == nil, "WriteWOFF2 done")
					k.classIf(err != nil, "WriteWOFF2 refused")
					done++
				default:
					var names []string
					for j := k.U(min(n, 20) + 2); 0 < j; j-- {
						names = append(names, pick(k, "", "A", "A", "zero", ".notdef", "a name with spaces", string(make([]byte, 64)), string(k.blob(k.U(5)))))
					}
					for k.P(50) && len(names) < n && n < 200 {
						names = append(names, fmt.Sprintf("g%d", len(names)))
						if len(names) < n {
							continue
						}
						break
					}
					what := fmt.Sprintf("SetGlyphNames(%d names for %d glyphs)", len(names), n)
					ops = append(ops, what)
					k.note("%s", what)
					k.measured(what, limit, func() { s.SetGlyphNames(names) })
				}
			}
			// whatever came out can be asked and written
			if 0 < done && k.P(60) {
				k.queryAll(s, len(m.b)+1<<20, int(s.NumGlyphs()))
				var out []byte
				k.measured("Write at the end", limit, func() { out = s.Write() })
				var s2 *font.SFNT
				k.measured("parsing what was written", limit, func() { s2, _ = font.ParseSFNT(out, 0) })
				k.classIf(s2 != nil, "result parses")
				k.classIf(s2 == nil, "result does not parse")
			}
			k.class(mode)
			k.classIf(m.evil != "", "evil "+m.evil)
			k.nontrivial(append(m.b, fmt.Sprint(ops)...), func() string { return fmt.Sprintf("%v: %v", m, ops) })
		})
	})
}
