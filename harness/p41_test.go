package harness

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/tdewolff/font"
)

// histFont is a font under edit with the model of what it should be.
type histFont struct {
	s    *font.SFNT
	m    *mFont
	snap *snapshot // of the state when it was last changed
}

func (k *Case) histCheck(h *histFont, what string) {
	k.checkEdited(h.s, h.m, what, partAll)
	k.checkRewritten(h.s.Tables, h.m, what)
}

func TestP41(t *testing.T) {
	run(t, "P41", "at least three operations that change a font, on fonts with a drawn glyph; distinct by files and operations", func(c *Ctx) {
		c.check("history", c.n(600, 10000), func(k *Case) {
			o := editOpt(k)
			o.BigN, o.HugeN = k.P(15), 0
			o.NoSubrs = false
			f := k.genFont(o)
			fonts := []*Font{f}
			o.Flavour = 1
			if f.CFF {
				o.Flavour = 2
			}
			for i := k.I(1, 2); 0 < i; i-- {
				f2 := k.genFont(o)
				fonts = append(fonts, f2)
			}
			var key []byte
			var pool []*histFont // fonts at hand
			drawn := 0
			for i, x := range fonts {
				if x.CFF && 5000 < x.CFFM.NGlobal+x.CFFM.NLocal && k.P(80) {
					x.CFFM.NGlobal, x.CFFM.NLocal = k.U(1300), k.U(1300)
				}
				if x.CFF && 1 < len(fonts) && 5000 < x.CFFM.NGlobal+x.CFFM.NLocal {
					x.CFFM.NGlobal, x.CFFM.NLocal = 0, 1240
				}
				if 0 < i && k.P(60) {
					k.disjoint(fonts[0], x)
				}
				b := x.bytes(k)
				k.artifact(fmt.Sprintf("font%d", i), b)
				key = append(key, b...)
				pool = append(pool, &histFont{s: k.mustParse(b, "font"), m: modelOf(x)})
				drawn += x.drawn()
			}
			inst, changes := 1, 0
			steps := 3 + k.U(6)
			for step := 0; step < steps; step++ {
				i := k.U(len(pool))
				h := pool[i]
				what := fmt.Sprintf("step %d on font %d", step, i)
				if k.P(25) { // fill caches at odd times
					observe(h.s, h.m.N())
				}
				op := k.U(12)
				k.note("%s: operation %d", what, op)
				key = fmt.Append(key, i, op)
				switch op {
				case 0, 1, 2: // subset
					full := !h.m.tables["vmtx"] || h.m.tables["vhea"]
					list, opt := k.plainList(h.m.N(), h.m.cff), k.genOpt(h.m, true)
					if k.P(60) {
						opt = []string{"all"}
					}
					k.note("list %v tables %v", list, opt)
					key = fmt.Append(key, list, opt)
					sub := k.subset(h.s, list, opt)
					m := k.modelSubset(h.m, list, opt, sub)
					n := &histFont{s: sub, m: m}
					k.histCheck(n, what+": subset")
					if _, ok := m.parsable(); !ok || !full || m.cff && (!m.tables["OS/2"] || !m.tables["name"] || !m.tables["post"]) {
						k.class("subset of few tables")
						continue // not to be used further
					}
					if k.P(30) && len(pool) < 5 {
						pool = append(pool, n)
					} else {
						pool[i] = n
					}
					changes++
					k.class("subset")
				case 3, 4, 5, 6: // merge
					j := k.U(len(pool))
					if j == i {
						continue
					}
					h2 := pool[j]
					re := k.P(30)
					res, conflict := h.m.merge(h2.m, re, 1<<inst)
					if conflict && k.P(70) {
						re = true
						res, conflict = h.m.merge(h2.m, re, 1<<inst)
					}
					if 2500 < res.N() {
						continue
					}
					if h.m.cff && (h.m.subrs()+h2.m.subrs() > 60000) {
						continue
					}
					err := k.merge(h.s, h2.s, re)
					if conflict {
						if err == nil {
							k.failf("%s: Merge succeeds although both fonts map the same rune (%s, %s)", what, h.m.hist, h2.m.hist)
						}
						k.class("merge refused")
						// the state of the first font is not specified: drop it
						pool = append(pool[:i:i], pool[i+1:]...)
						k.histCheck(h2, what+": second font of a merge that failed")
						if len(pool) == 1 && k.B() {
							step = steps
						}
						continue
					} else if err != nil {
						k.failf("%s: Merge (rearranging %v) of %s and %s: %v", what, re, h.m.hist, h2.m.hist, err)
					}
					inst++
					h.m = res
					if re {
						k.checkRearranged(h.s, h.m, what)
					}
					k.histCheck(h, what+": merged font")
					k.histCheck(h2, what+": second font of a merge")
					changes++
					k.class("merge rearranging %v", re)
				case 7: // rename
					if !h.m.tables["post"] {
						continue
					}
					names := k.genNameList(h.m.N(), h.m.cff)
					var err error
					k.guard("SetGlyphNames", func() { err = h.s.SetGlyphNames(names) })
					if err != nil {
						k.failf("%s: SetGlyphNames(%q): %v", what, names, err)
					}
					x := *h.m
					h.m = &x
					h.m.rename(names)
					key = fmt.Append(key, names)
					k.histCheck(h, what+": renamed font")
					changes++
					k.class("rename")
				case 8, 9: // write and parse
					s := k.memoryEqualsWritten(h.s, h.m, what)
					if s == nil || s.Hmtx == nil {
						k.class("written")
						continue
					}
					k.checkEdited(s, h.m, what+": written font", partAll)
					h.s = s
					k.class("written and parsed")
				case 10: // WOFF2
					emb, ok := h.m.parsable()
					if !ok || emb {
						continue
					}
					var b, back []byte
					var err error
					k.guard("WriteWOFF2", func() { b, err = h.s.WriteWOFF2() })
					if err != nil {
						k.failf("%s: WriteWOFF2 (%s): %v", what, h.m.hist, err)
					}
					k.artifact("woff2", b)
					k.guard("ParseWOFF2", func() { back, err = font.ParseWOFF2(b) })
					if err != nil {
						k.failf("%s: the WOFF2 of the font (%s) is rejected: %v", what, h.m.hist, err)
					}
					s := k.mustParse(back, "font from WOFF2")
					k.checkEdited(s, h.m, what+": font from WOFF2", partAll)
					h.s = s
					k.class("WOFF2")
				case 11: // a copy of the font, by its bytes
					if emb, ok := h.m.parsable(); !ok || emb || 4 < len(pool) {
						continue
					}
					var b []byte
					k.guard("Write", func() { b = h.s.Write() })
					if !bytes.Equal(b, h.s.Write()) {
						k.failf("%s: two Writes give different bytes", what)
					}
					x := *h.m
					pool = append(pool, &histFont{s: k.mustParse(b, "copy"), m: &x})
					k.class("copied")
				}
			}
			for i, h := range pool {
				k.histCheck(h, fmt.Sprintf("font %d at the end", i))
				s := k.reparse(h.s, h.m, fmt.Sprintf("font %d at the end", i))
				k.checkEdited(s, h.m, fmt.Sprintf("font %d at the end, written", i), partAll)
			}
			k.class("changes %d", min(changes, 5))
			k.class("CFF %v", f.CFF)
			if 2 < changes && 0 < drawn {
				k.nontrivial(key, func() string { return pool[0].m.hist + " of " + f.String() })
			}
		})
	})
}

// plainList is a list of glyphs without repetitions that starts with the missing glyph.
func (k *Case) plainList(n int, cff bool) []uint16 {
	list := []uint16{0}
	seen := map[uint16]bool{0: true}
	for _, g := range k.genList(n, cff) {
		if !seen[g] {
			seen[g] = true
			list = append(list, g)
		}
	}
	return list
}

// subrs is an upper bound of the subroutines of one kind.
func (m *mFont) subrs() int {
	seen := map[string]int{}
	for _, g := range m.gl {
		if g.f.CFF {
			n := max(g.f.CFFM.NGlobal, g.f.CFFM.NLocal, len(g.f.CFFM.Globals))
			for _, p := range g.f.CFFM.Priv {
				n = max(n, len(p.Locals))
			}
			n += 200
			seen[fmt.Sprintf("%p %d", g.f, g.inst)] = n
		}
	}
	sum := 0
	for _, n := range seen {
		sum += n
	}
	return sum
}
