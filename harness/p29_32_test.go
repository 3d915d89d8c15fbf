package harness

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/tdewolff/font"
)

// genPair draws two fonts of the same flavour.
func (k *Case) genPair(o FontOpt) (f, f2 *Font) {
	f = k.genFont(o)
	o.Flavour, o.HugeN = 1, 0
	if f.CFF {
		o.Flavour = 2
	}
	f2 = k.genFont(o)
	limitSubrs(f, f2)
	return f, f2
}

// limitSubrs makes two fonts fit together.
func limitSubrs(f, f2 *Font) {
	if f.CFF {
		// together at most as many subroutines as a font can have
		if f.CFFM.NGlobal+f2.CFFM.NGlobal > 60000 {
			f2.CFFM.NGlobal = 0
		}
		if f.CFFM.NLocal+f2.CFFM.NLocal > 60000 {
			f2.CFFM.NLocal = 0
		}
	}
}

func (k *Case) merge(s, s2 *font.SFNT, rearrange bool) error {
	k.Helper()
	var err error
	k.guard("Merge", func() { err = s.Merge(s2, font.MergeOptions{RearrangeCmap: rearrange}) })
	return err
}

func drawnGlyph(g *Glyph, cff bool) bool {
	if cff {
		return 0 < len(g.Ops.Path)
	}
	return !g.isEmpty()
}

func (f *Font) drawn() int {
	n := 0
	for _, g := range f.Glyphs[1:] {
		if drawnGlyph(g, f.CFF) {
			n++
		}
	}
	return n
}

func TestP29(t *testing.T) {
	run(t, "P29", "both fonts have a drawn glyph besides the missing one; distinct by both files", func(c *Ctx) {
		c.check("merge", c.n(1300, 20000), func(k *Case) {
			o := editOpt(k)
			o.MaxN, o.Wide = 10, k.P(40)
			f, f2 := k.genPair(o)
			k.tweakMap(f)
			k.disjoint(f, f2)
			b, b2 := f.bytes(k), f2.bytes(k)
			k.artifact("font", b)
			k.artifact("font2", b2)
			s, s2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			m, m2 := modelOf(f), modelOf(f2)
			if k.P(30) { // with caches filled
				observe(s, f.N())
				observe(s2, f2.N())
			}
			if err := k.merge(s, s2, false); err != nil {
				k.failf("Merge: %v", err)
			}
			res, conflict := m.merge(m2, false, 1)
			if conflict {
				panic("conflict")
			}
			k.checkEdited(s, res, "the merged font", partAll)
			k.checkTables(s, res, "the merged font")
			k.checkRewritten(s.Tables, res, "the merged font")
			if f2.N() < 2 {
				k.class("nothing to merge")
			} else if err := validTables(s.Tables, res); err != nil {
				k.failf("the merged font (%s): %v", res.hist, err)
			}
			r := k.reparse(s, res, "merged font")
			k.checkEdited(r, res, "the written merged font", partAll)
			if b := s.Tables["maxp"]; len(b) == 32 && 2 <= f2.N() {
				// the limits hold for the glyphs and programs of both
				for i := 6; i < 32; i += 2 {
					if v := (i - 6) / 2; be16(b, i) < max(f.Maxp[v], f2.Maxp[v]) {
						k.failf("the merged font (%s): value %d of maxp is %d for fonts with %d and %d", res.hist, v, be16(b, i), f.Maxp[v], f2.Maxp[v])
					}
				}
			}
			k.sameRest(f, f2, r)
			k.class("CFF %v", f.CFF)
			k.classIf(f.HasKern && f2.HasKern, "both kerned")
			k.classIf(f.HasKern != f2.HasKern, "one kerned")
			k.classIf(f.LocaFmt != f2.LocaFmt, "different location formats")
			if f.CFF {
				k.classIf(0 < f.CFFM.NGlobal+f2.CFFM.NGlobal+f.CFFM.NLocal+f2.CFFM.NLocal, "many subroutines")
			} else {
				for _, g := range f2.Glyphs[1:] {
					k.classIf(0 < len(g.Comps), "composite in the second font")
				}
			}
			if 0 < f.drawn() && 0 < f2.drawn() {
				k.nontrivial(append(append([]byte{}, b...), b2...), func() string { return f.String() + " + " + f2.String() })
			}
		})
		c.check("large", c.n(24, 400), func(k *Case) {
			// glyph data around the limit of the short glyph locations
			o := FontOpt{Flavour: 1, Edit: true, NoKern: true, MaxN: 6, PlainMap: true}
			f, f2 := k.genPair(o)
			f.PostV, f2.PostV = 3, 3
			total := pick(k, 65536, 65530, 65540, 131070, 131072, 131080, 40000)
			part := k.U(total)
			k.blowUp(f, part)
			k.blowUp(f2, total-part)
			k.disjoint(f, f2)
			b, b2 := f.bytes(k), f2.bytes(k)
			k.artifact("font", b)
			k.artifact("font2", b2)
			s, s2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			if err := k.merge(s, s2, false); err != nil {
				k.failf("Merge: %v", err)
			}
			res, _ := modelOf(f).merge(modelOf(f2), false, 1)
			if f2.N() < 2 {
				return
			}
			k.checkEdited(s, res, "the merged font", partOutlines)
			k.checkRewritten(s.Tables, res, "the merged font")
			if err := validTables(s.Tables, res); err != nil {
				k.failf("the merged font (%s): %v", res.hist, err)
			}
			k.checkEdited(k.reparse(s, res, "merged font"), res, "the written merged font", partAll)
			n := len(s.Tables["glyf"])
			k.class("glyf over 65535: %v over 131071: %v", 65535 < n, 131071 < n)
			k.nontrivial(append(append([]byte{}, b...), b2...), func() string { return fmt.Sprintf("%d bytes of glyphs", n) })
		})
	})
}

// blowUp appends glyphs that take size bytes.
func (k *Case) blowUp(f *Font, extra int) {
	for size := 0; size < extra; {
		n := pick(k, 2000, 500, 8000, 20000)
		if size+n > extra {
			n = extra - size
		}
		g := &Glyph{Contours: [][]Pt{{{0, 0, true}, {10, 10, true}, {k.U(300), 5, true}}}, Instr: k.blob(n)}
		g.Adv, g.LSB = 500, 0
		f.Glyphs = append(f.Glyphs, g)
		g.BBox = trueBBox(f.Glyphs, f.N()-1)
		size += n + 28
	}
	f.NHM, f.NVM = f.N(), 0
	f.LocaFmt = 1
}

// sameRest checks that a merged font keeps what merging has no part in.
func (k *Case) sameRest(f, f2 *Font, s *font.SFNT) {
	k.Helper()
	if s == nil || s.Head == nil {
		return
	}
	if int(s.Head.UnitsPerEm) != f.UPM {
		k.failf("the merged font has %d units per em, expected %d", s.Head.UnitsPerEm, f.UPM)
	}
	if f2.N() < 2 || s.OS2 == nil {
		return
	}
	a, b := k.mustParse(f.bytes(k), "font"), k.mustParse(f2.bytes(k), "font2")
	if a.OS2 == nil || b.OS2 == nil {
		return
	}
	for _, x := range []*font.SFNT{a, b} {
		for i, r := range []struct{ have, got uint32 }{{x.OS2.UlUnicodeRange1, s.OS2.UlUnicodeRange1}, {x.OS2.UlUnicodeRange2, s.OS2.UlUnicodeRange2}, {x.OS2.UlUnicodeRange3, s.OS2.UlUnicodeRange3}, {x.OS2.UlUnicodeRange4, s.OS2.UlUnicodeRange4}} {
			if r.have&^r.got != 0 {
				k.failf("the merged font declares Unicode ranges %d as %08x, one of its fonts had %08x", i+1, r.got, r.have)
			}
		}
	}
	if s.OS2.UsWeightClass != a.OS2.UsWeightClass || s.OS2.STypoAscender != a.OS2.STypoAscender || s.OS2.UsWinAscent != a.OS2.UsWinAscent || s.Hhea.Ascender != a.Hhea.Ascender {
		k.failf("the merged font has other weight or line metrics than the first font")
	}
}

func TestP30(t *testing.T) {
	run(t, "P30", "the second font has a glyph to merge; distinct by both files", func(c *Ctx) {
		c.check("conflict", c.n(900, 15000), func(k *Case) {
			o := editOpt(k)
			o.BigN, o.HugeN = k.P(20), 0
			f, f2 := k.genPair(o)
			for _, x := range []*Font{f, f2} {
				if x.CFF && 5000 < x.CFFM.NGlobal+x.CFFM.NLocal {
					x.CFFM.NGlobal, x.CFFM.NLocal = 0, 0 // several copies come together
				}
			}
			kind := k.U(4)
			switch kind {
			case 0:
				k.disjoint(f, f2)
			case 1, 2: // a single shared rune
				k.disjoint(f, f2)
				taken, _ := f.runeMap()
				rs := []rune{}
				for _, r := range sortedRunes(taken) {
					if taken[r] != 0 {
						rs = append(rs, r)
					}
				}
				if 0 < len(rs) && 1 < f2.N() {
					f2.Subs[0].Map[rs[k.U(len(rs))]] = 1 + k.U(f2.N()-1)
				}
			}
			b, b2 := f.bytes(k), f2.bytes(k)
			k.artifact("font", b)
			k.artifact("font2", b2)
			s, s2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			side, side2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			keep, keep2 := append([]byte{}, b...), append([]byte{}, b2...)
			var snapS, snap2 *snapshot
			if k.B() {
				snapS, snap2 = snap(side, f.N()), snap(side2, f2.N())
			} else { // caches of the fonts themselves stay empty
				snapS, snap2 = snap(k.mustParse(b, "font"), f.N()), snap(k.mustParse(b2, "second font"), f2.N())
			}
			if k.B() {
				observe(s, f.N())
				observe(s2, f2.N())
			}
			res, conflict := modelOf(f).merge(modelOf(f2), false, 1)
			err := k.merge(s, s2, false)
			if conflict && err == nil {
				k.failf("Merge succeeds although both fonts map the same rune")
			} else if !conflict && err != nil {
				k.failf("Merge fails without a conflict: %v", err)
			}
			check := func(what string) {
				k.sameSnap(s2, snap2, "the second font after "+what)
				k.sameSnap(side, snapS, "another font parsed from the bytes of the first, after "+what)
				k.sameSnap(side2, snap2, "another font parsed from the bytes of the second, after "+what)
				if !bytes.Equal(b, keep) || !bytes.Equal(b2, keep2) {
					k.failf("the bytes that the fonts were parsed from have changed after %s", what)
				}
			}
			check("merging")
			k.class("conflict %v", conflict)
			if err == nil {
				// a second merge of the same font conflicts, if it has runes
				k.checkEdited(s, res, "the merged font", partOutlines|partCmap)
				after := snap(s, res.N())
				runes := 0
				for _, gs := range modelOf(f2).runes {
					if !gs[0] {
						runes++
					}
				}
				other := k.mustParse(b, "font")
				if err := k.merge(other, s2, true); err != nil {
					k.failf("Merge of the same font into another: %v", err)
				}
				names := make([]string, other.NumGlyphs())
				for i := range names {
					names[i] = fmt.Sprintf("x%d", i)
				}
				if other.Post != nil {
					k.guard("SetGlyphNames", func() { other.SetGlyphNames(names) })
				}
				if err := k.merge(other, other2(k, s, side, f), true); err != nil && int(other.NumGlyphs())+res.N() < 65535 {
					k.failf("Merge of a merged font: %v", err)
				}
				check("further merging")
				k.sameSnap(s, after, "the merged font after others were merged")
				err = k.merge(s, s2, false)
				if runes != 0 && 1 < f2.N() && err == nil {
					k.failf("Merge of the same font twice succeeds although it has runes")
				} else if (runes == 0 || f2.N() < 2) && err != nil {
					k.failf("Merge of a font without runes fails: %v", err)
				}
				check("merging twice")
			}
			if 1 < f2.N() {
				k.nontrivial(append(append([]byte{}, b...), b2...), func() string { return fmt.Sprintf("%s + %s, conflict %v", f, f2, conflict) })
			}
		})
		c.check("flavour", c.n(80, 1500), func(k *Case) {
			o := editOpt(k)
			o.BigN, o.HugeN = false, 0
			o.Flavour = 1 + k.U(2)
			f := k.genFont(o)
			o.Flavour = 3 - o.Flavour
			f2 := k.genFont(o)
			k.disjoint(f, f2)
			b, b2 := f.bytes(k), f2.bytes(k)
			k.artifact("font", b)
			k.artifact("font2", b2)
			s, s2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			was, was2 := snap(k.mustParse(b, "font"), f.N()), snap(k.mustParse(b2, "second font"), f2.N())
			for _, re := range []bool{false, true} {
				if err := k.merge(s, s2, re); err == nil {
					k.failf("Merge of fonts of different flavours succeeds")
				}
				k.sameSnap(s, was, "the font after refusing another flavour")
				k.sameSnap(s2, was2, "the second font after refusing another flavour")
			}
			k.nontrivial(append(append([]byte{}, b...), b2...), func() string { return f.String() + " + " + f2.String() })
		})
		c.check("too many", c.n(10, 60), func(k *Case) {
			// the fonts have 65535 glyphs together, or a few less or more
			total := 65535 + pick(k, -3, -1, 0, 2, 3, 100, 30000)
			n := 1 + k.U(65534)
			n = min(max(n, total-65535+1), 65535-1)
			f := k.manyGlyphs(n)
			f2 := k.manyGlyphs(total - n)
			for _, x := range []*Font{f, f2} {
				x.Subs = []*Sub{{Platform: 3, Encoding: 10, Format: 12, Map: map[rune]int{}}}
			}
			b, b2 := f.bytes(k), f2.bytes(k)
			s, s2 := k.mustParse(b, "font"), k.mustParse(b2, "second font")
			keep2 := append([]byte{}, b2...)
			err := k.merge(s, s2, false)
			k.note("%d and %d glyphs", n, total-n)
			if total-1 > 65535 && err == nil {
				k.failf("Merge of fonts with %d and %d glyphs succeeds", n, total-n)
			} else if total <= 65535 && err != nil {
				k.failf("Merge of fonts with %d and %d glyphs: %v", n, total-n, err)
			}
			if err == nil && 1 < total-n {
				res, _ := modelOf(f).merge(modelOf(f2), false, 1)
				k.checkEdited(s, res, "the merged font", partOutlines|partMetrics)
				k.checkEdited(k.reparse(s, res, "merged font"), res, "the written merged font", partOutlines|partMetrics)
			}
			if !bytes.Equal(keep2, b2) || int(s2.NumGlyphs()) != total-n {
				k.failf("the second font has changed")
			}
			k.class("over %v", 65536 < total)
			k.nontrivial(fmt.Append(nil, n, total), func() string { return fmt.Sprintf("%d and %d glyphs", n, total-n) })
		})
	})
}

// other2 is the merged font itself or one parsed from its bytes.
func other2(k *Case, s, side *font.SFNT, f *Font) *font.SFNT {
	if k.B() {
		return s
	}
	return side
}

// manyGlyphs is a TrueType font of n glyphs, all but a few of them empty.
func (k *Case) manyGlyphs(n int) *Font {
	f := k.genFont(FontOpt{Flavour: 1, Edit: true, NoKern: true, MaxN: 4, NoVert: true, PlainMap: true})
	f.PostV = 3
	if n < f.N() {
		f.Subs = []*Sub{{Platform: 3, Encoding: 10, Format: 12, Map: map[rune]int{}}}
		for f.N() > n {
			f.Glyphs = f.Glyphs[:f.N()-1]
		}
		for _, g := range f.Glyphs {
			if 0 < len(g.Comps) {
				*g = Glyph{Adv: g.Adv, LSB: g.LSB}
			}
		}
	}
	for f.N() < n {
		f.Glyphs = append(f.Glyphs, &Glyph{Adv: 500})
	}
	f.NHM = 1 + k.U(n)
	last := f.Glyphs[f.NHM-1].Adv
	for _, g := range f.Glyphs[f.NHM:] {
		g.Adv = last
	}
	return f
}

func TestP31(t *testing.T) {
	run(t, "P31", "at least two glyphs besides the missing ones come together, and one of them is drawn; distinct by files", func(c *Ctx) {
		c.check("rearrange", c.n(700, 11000), func(k *Case) {
			o := editOpt(k)
			o.MaxN = 10
			f, f2 := k.genPair(o)
			k.tweakMap(f)
			k.tweakMap(f2)
			files := [][]byte{f.bytes(k), f2.bytes(k)}
			fonts := []*Font{f, f2}
			if k.P(40) { // a chain
				o.Flavour = 1
				if f.CFF {
					o.Flavour = 2
				}
				o.NoSubrs, o.HugeN = true, 0
				x := k.genFont(o)
				fonts = append(fonts, x)
				files = append(files, x.bytes(k))
			}
			if k.P(20) { // the same font once more
				i := 1 + k.U(len(fonts)-1)
				fonts = append(fonts, fonts[i])
				files = append(files, files[i])
				if f.CFF {
					if fonts[i].CFFM.NGlobal+f.CFFM.NGlobal+fonts[i].CFFM.NGlobal > 60000 || fonts[i].CFFM.NLocal+f.CFFM.NLocal+fonts[i].CFFM.NLocal > 60000 {
						fonts, files = fonts[:len(fonts)-1], files[:len(files)-1]
					}
				}
			}
			for i, b := range files {
				k.artifact(fmt.Sprintf("font%d", i), b)
			}
			s := k.mustParse(files[0], "font")
			m := modelOf(f)
			drawn := 0
			key := append([]byte{}, files[0]...)
			plain := false
			for i := 1; i < len(fonts); i++ {
				re := true
				m2 := modelOf(fonts[i])
				if !plain && 1 < i && i < len(fonts)-1 && k.P(30) {
					if _, conflict := m.merge(m2, false, i); !conflict {
						re = false // usual merges in between
					}
				}
				if k.P(30) {
					observe(s, m.N())
				}
				if err := k.merge(s, k.mustParse(files[i], "further font"), re); err != nil {
					k.failf("Merge %d (rearranging %v): %v", i, re, err)
				}
				m, _ = m.merge(m2, re, i)
				if re {
					k.checkRearranged(s, m, "directly after merging")
				}
				k.checkEdited(s, m, "the merged font", partAll)
				drawn += fonts[i].drawn()
				key = append(key, files[i]...)
			}
			s2 := k.reparse(s, m, "merged font")
			if m.runes[firstRearranged] != nil && s2 != nil {
				k.checkEdited(s2, m, "the written merged font", partAll)
				k.checkRearranged(s2, m, "after writing")
			}
			k.class("%d fonts", len(fonts))
			k.class("CFF %v", f.CFF)
			k.classIf(f2.N() < 2, "only a missing glyph in the second")
			k.classIf(f.N() < 2, "only a missing glyph in the first")
			k.classIf(m.N() > 300, "many glyphs")
			if 2 < m.N() && 0 < drawn {
				k.nontrivial(key, func() string { return m.hist + ": " + f.String() + " + " + f2.String() })
			}
		})
		c.check("many", c.n(4, 40), func(k *Case) {
			// runes beyond the surrogates and the first plane
			n := pick(k, 55263, 55300, 57500, 65400, 65534)
			a := 1 + k.U(n-1)
			f, f2 := k.manyGlyphs(a), k.manyGlyphs(n-a)
			s, s2 := k.mustParse(f.bytes(k), "font"), k.mustParse(f2.bytes(k), "second font")
			if err := k.merge(s, s2, true); err != nil {
				k.failf("Merge of fonts with %d and %d glyphs: %v", a, n-a, err)
			}
			m, _ := modelOf(f).merge(modelOf(f2), true, 1)
			k.checkRearranged(s, m, "directly after merging")
			if s2 := k.reparse(s, m, "merged font"); s2 != nil {
				k.checkRearranged(s2, m, "after writing")
			}
			k.nontrivial(fmt.Append(nil, a, n), func() string { return fmt.Sprintf("%d and %d glyphs", a, n-a) })
		})
	})
}

// checkRearranged checks that glyph i has just the rune U+0020 + i, for all i but zero.
func (k *Case) checkRearranged(s *font.SFNT, m *mFont, what string) {
	k.Helper()
	if !m.tables["cmap"] {
		return
	}
	k.guard("queries "+what, func() {
		n := m.N()
		for i := 1; i < n; i++ {
			r := rune(firstRearranged + i - 1)
			if g := s.GlyphIndex(r); int(g) != i {
				k.failf("%s (%s): rune %U has glyph %d, expected %d", what, m.hist, r, g, i)
			}
			if rs := s.GlyphToUnicode(uint16(i)); len(rs) != 1 || rs[0] != r {
				k.failf("%s (%s): glyph %d has runes %U, expected %U only", what, m.hist, i, rs, r)
			}
		}
		for _, r := range []rune{0, 1, 0x20, 0x1F, rune(firstRearranged + n - 1), rune(firstRearranged + n), 0x10000 + 0x21, 0x10000 + 0x20, 0x10FFFF, 0xFFFF} {
			if r < firstRearranged || rune(firstRearranged+n-1) <= r {
				if g := s.GlyphIndex(r); g != 0 {
					k.failf("%s (%s): rune %U has glyph %d, expected none", what, m.hist, r, g)
				}
			}
		}
	})
}

func TestP32(t *testing.T) {
	run(t, "P32", "at least two assignments on a font of at least two glyphs; distinct by font and names", func(c *Ctx) {
		c.check("history", c.n(1100, 18000), func(k *Case) {
			o := editOpt(k)
			o.NoKern, o.NoVert, o.NoExtra, o.MaxN, o.HugeN = true, true, true, 25, 0
			f := k.genFont(o)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			key := append([]byte{}, b...)
			old := m
			sets := 0
			lookup := func() {
				if !k.P(60) {
					return
				}
				k.guard("lookups", func() {
					s.FindGlyphName("A")
					s.FindGlyphName("nope")
				})
			}
			for step := 0; step < 2+k.U(4); step++ {
				lookup()
				switch k.U(10) {
				case 0, 1: // a name that cannot be stored
					names := k.genNameList(m.N(), f.CFF)
					if f.CFF {
						k.class("skip")
						continue
					}
					names[k.U(m.N())] = strings.Repeat("x", pick(k, 64, 65, 255, 256, 257, 300, 65536))
					var err error
					k.guard("SetGlyphNames", func() { err = s.SetGlyphNames(names) })
					if err == nil {
						k.failf("SetGlyphNames accepts a name that cannot be stored")
					}
					k.class("refused")
					k.checkEdited(s, m, "the font after refusing names", partNames)
				case 2: // in between: write and parse
					s2 := k.reparse(s, m, "renamed font")
					if s2 == nil {
						k.failf("the renamed font cannot be parsed")
					}
					k.checkEdited(s2, m, "the written font", partAll)
					if k.B() {
						s = s2
						k.class("goes on with the written font")
					} else {
						k.class("goes on after writing")
					}
				default:
					names := k.genNameList(m.N(), f.CFF)
					if k.P(20) && m.named { // change only one or two
						for i, g := range m.gl {
							names[i] = g.name
						}
						for j := k.I(0, 2); 0 < j && 1 < len(names); j-- {
							names[1+k.U(len(names)-1)] = k.genGlyphName(63)
						}
						if !f.CFF && k.B() && 1 < len(names) {
							i, j := k.U(len(names)), k.U(len(names))
							names[i], names[j] = names[j], names[i]
						}
					}
					given := append([]string{}, names...)
					var err error
					k.guard("SetGlyphNames", func() { err = s.SetGlyphNames(given) })
					if err != nil {
						k.failf("SetGlyphNames(%q): %v", names, err)
					}
					for i := range given {
						if given[i] != names[i] {
							k.failf("SetGlyphNames changed the caller's list")
						}
					}
					x := *m
					m = &x
					m.rename(names)
					if k.P(30) { // the caller's list is the caller's
						for i := range given {
							given[i] = "changed"
						}
					}
					sets++
					key = fmt.Append(key, names)
					k.checkEdited(s, m, "the renamed font", partNames)
				}
			}
			k.checkEdited(s, m, "the renamed font", partAll)
			k.checkTables(s, m, "the renamed font")
			k.checkRewritten(s.Tables, m, "the renamed font")
			if sets != 0 {
				if err := validTables(s.Tables, m); err != nil {
					k.failf("%s: %v", m.hist, err)
				}
			}
			k.checkEdited(k.reparse(s, m, "renamed font"), m, "the written font", partAll)
			k.checkEdited(k.mustParse(b, "font"), old, "another font from the same bytes", partNames)
			k.class("CFF %v post version %d", f.CFF, f.PostV)
			if 1 < sets && 1 < f.N() {
				k.nontrivial(key, func() string { return m.hist + " of " + f.String() })
			}
		})
		c.check("many", c.n(8, 100), func(k *Case) {
			// as many custom names as there are indices, or more
			n := pick(k, 65536-258, 65535-258, 65537-258, 65535, 33000, 30000)
			f := k.manyGlyphs(n)
			b := f.bytes(k)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			names := make([]string, n)
			std := k.B()
			for i := range names {
				names[i] = fmt.Sprintf("n%d", i)
				if std && i < 258 {
					names[i] = macNames[i]
				}
			}
			custom := n
			if std {
				custom -= 258
			}
			var err error
			k.guard("SetGlyphNames", func() { err = s.SetGlyphNames(names) })
			if 65536-258 < custom && err == nil {
				k.failf("SetGlyphNames accepts %d custom names", custom)
			} else if custom <= 65535-258 && err != nil {
				k.failf("SetGlyphNames refuses %d custom names: %v", custom, err)
			}
			k.class("refused %v", err != nil)
			if err == nil {
				m.rename(names)
				for _, x := range []*font.SFNT{s, k.reparse(s, m, "renamed font")} {
					for i := 0; i < n; i += 1 + k.U(400) {
						if g := x.GlyphName(uint16(i)); g != names[i] {
							k.failf("GlyphName(%d) = %q, expected %q", i, g, names[i])
						}
						if g := x.FindGlyphName(names[i]); int(g) != i {
							k.failf("FindGlyphName(%q) = %d, expected %d", names[i], g, i)
						}
					}
				}
			}
			k.nontrivial(fmt.Append(nil, n, std), func() string { return fmt.Sprintf("%d names, %d of them custom", n, custom) })
		})
	})
}
