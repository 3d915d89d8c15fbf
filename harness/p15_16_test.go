package harness

import (
	"fmt"
	"sort"
	"testing"

	"github.com/tdewolff/font"
)

// bigMap gives the font one large character map (many segments and groups).
func (k *Case) bigMap(f *Font) {
	m := map[rune]int{}
	n := f.N()
	if n < 2 {
		return
	}
	r := k.rng()
	c := rune(r.n(200))
	want := 200 + r.n(3000)
	g := 1 + r.n(n-1)
	for len(m) < want {
		switch r.n(6) {
		case 0:
			c += rune(1 + r.n(40))
			g = 1 + r.n(n-1)
		case 1:
			g = 1 + r.n(n-1)
		case 2:
			c += rune(r.n(300))
		}
		for j := 1 + r.n(30); 0 < j; j-- {
			if 0xD800 <= c && c < 0xE000 {
				c = 0xE000
			}
			if 0x10FFFF < c {
				break
			}
			if c != 0xFFFE && c != 0xFFFF {
				m[c] = g
			}
			c++
			g++
			if n <= g {
				g = 1
			}
		}
		if 0x10FFFF < c {
			break
		}
	}
	f.Subs = nil
	bmp := restrict(m, 0, 0xFFFE)
	if len(bmp) < 3000 {
		f.Subs = append(f.Subs, &Sub{Platform: 0, Encoding: 3, Format: 4, Map: bmp})
	}
	f.Subs = append(f.Subs, &Sub{Platform: 3, Encoding: 10, Format: 12, Map: restrict(m, 0, 0x10FFFF)})
}

// byteMap gives the font a character map for the Mac of one glyph per byte, all from among the first
// 256 glyphs.
func (k *Case) byteMap(f *Font) {
	n := min(f.N(), 256)
	if n < 2 {
		return
	}
	r := k.rng()
	m := map[rune]int{}
	for c, p := rune(0), pick(k, 100, 50, 5); c < 256; c++ {
		if r.p(p) {
			m[c] = r.n(n)
			if r.p(30) {
				m[c] = max(1, n-1-r.n(3))
			}
		}
	}
	f.Subs = []*Sub{{Platform: 1, Encoding: 0, Format: 0, Map: m}}
	if k.P(30) { // one without it
		f.Subs = append(f.Subs, &Sub{Platform: 3, Encoding: 1, Format: 4, Map: restrict(m, 0x30, 0x60)})
	}
}

func (k *Case) cmapFont() (*Font, *font.SFNT) {
	o := FontOpt{MaxN: 40, BigN: true, HugeN: 1, NoKern: true, NoVert: true, NoExtra: true, NoSubrs: true}
	bytes := k.P(4)
	if bytes {
		o.HugeN = 50
	}
	f := k.genFont(o)
	if bytes {
		k.class("byte table")
		k.byteMap(f)
	} else if k.P(12) {
		k.bigMap(f)
	}
	b := f.bytes(k)
	k.artifact("font", b)
	fm := []int{}
	for _, s := range f.Subs {
		fm = append(fm, s.Format)
	}
	k.class("formats %v", fm)
	return f, k.mustParse(b, "font")
}

// probeRunes are the covered runes, their neighbours and some others.
func (k *Case) probeRunes(m map[rune]int) []rune {
	set := map[rune]bool{}
	for r := range m {
		set[r] = true
		set[r-1] = true
		set[r+1] = true
		set[r+0x10000] = true // same low 16 bits
		set[r-0x10000] = true // negative, mostly
		set[r^-0x80000000] = true
		set[r&0xFFFF] = true
	}
	for _, r := range []rune{-1, -0x80000000, 0, 0x7F, 0xFF, 0x100, 0xD7FF, 0xD800, 0xDFFF, 0xFFFE, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 0x7FFFFFFF} {
		set[r] = true
	}
	for i := 0; i < 20; i++ {
		set[rune(k.U(0x110000))] = true
	}
	var rs []rune
	for r := range set {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

func TestP15(t *testing.T) {
	run(t, "P15", "the character map maps at least 3 runes to glyphs other than 0; distinct by font file", func(c *Ctx) {
		c.check("lookup", c.n(1500, 20000), func(k *Case) {
			f, s := k.cmapFont()
			m, amb := f.runeMap()
			nz := 0
			probes := k.probeRunes(m)
			k.guard("GlyphIndex", func() {
				for _, r := range probes {
					if amb[r] {
						k.class("ambiguous zero")
						continue
					}
					if got := s.GlyphIndex(r); int(got) != m[r] {
						k.failf("GlyphIndex(%#x) = %d, expected %d (%v)", r, got, m[r], f)
					}
					if m[r] != 0 {
						nz++
					}
				}
			})
			if 3 <= nz {
				k.nontrivial(k.arts[0].Data, f.String)
			}
		})
	})
}

func TestP16(t *testing.T) {
	run(t, "P16", "some glyph is mapped from two or more runes, or two subtables disagree on coverage; distinct by font file", func(c *Ctx) {
		c.check("inverse", c.n(1200, 15000), func(k *Case) {
			f, s := k.cmapFont()
			if k.P(20) && 0 < len(f.Subs) {
				k.class("plain")
			}
			m, _ := f.runeMap()
			// the forward lookup decides; every covered rune is known to the model
			want := map[int][]rune{}
			for _, r := range sortedRunes(m) {
				if g := s.GlyphIndex(r); g != 0 {
					want[int(g)] = append(want[int(g)], r)
				}
			}
			order := make([]int, 0, f.N()+2)
			for i := 1; i < f.N(); i++ {
				order = append(order, i)
			}
			order = append(order, f.N(), 65535)
			r := k.rng()
			for i := len(order) - 1; 0 < i; i-- {
				j := 0
				if len(order) < 3000 {
					j = i - k.U(i+1)
				} else { // drawing each would take too long
					j = r.n(i + 1)
				}
				order[i], order[j] = order[j], order[i]
			}
			multi := false
			ask := func(g int) {
				var got []rune
				got = append(got, s.GlyphToUnicode(uint16(g))...)
				sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
				if fmt.Sprint(got) != fmt.Sprint(want[g]) {
					k.failf("GlyphToUnicode(%d) = %x, but the runes that map to it are %x (%v)", g, got, want[g], f)
				}
				multi = multi || 2 <= len(want[g])
			}
			for i := 0; i < 3 && 0 < len(order); i++ {
				order = append(order, order[k.U(len(order))])
			}
			k.guard("GlyphToUnicode", func() {
				for _, g := range order {
					ask(g)
				}
			})
			if multi || 2 <= len(f.Subs) {
				k.nontrivial(k.arts[0].Data, f.String)
			}
		})
		c.check("disagree", c.n(500, 5000), func(k *Case) {
			// two subtables that map one rune differently: only the first counts
			f := k.genFont(FontOpt{MinN: 3, MaxN: 20, NoKern: true, NoVert: true, NoExtra: true, NoSubrs: true})
			n := f.N()
			mk := func() map[rune]int {
				m := map[rune]int{}
				for i := 1 + k.I(0, 8); 0 < i; i-- {
					m[rune(0x41+k.U(12))] = 1 + k.U(n-1)
				}
				return m
			}
			f.Subs = []*Sub{{Platform: 0, Encoding: 3, Format: pick(k, 4, 6, 0), Map: mk()}, {Platform: 3, Encoding: 1, Format: pick(k, 4, 6), Map: mk()}}
			if k.B() {
				f.Subs = append(f.Subs, &Sub{Platform: 3, Encoding: 10, Format: 12, Map: mk()})
			}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m, amb := f.runeMap()
			want := map[int][]rune{}
			for _, r := range sortedRunes(m) {
				g := s.GlyphIndex(r)
				if !amb[r] && int(g) != m[r] {
					k.failf("GlyphIndex(%#x) = %d, expected %d", r, g, m[r])
				}
				want[int(g)] = append(want[int(g)], r)
			}
			for g := 1; g < n; g++ {
				got := append([]rune{}, s.GlyphToUnicode(uint16(g))...)
				sort.Slice(got, func(i, j int) bool { return got[i] < got[j] })
				if fmt.Sprint(got) != fmt.Sprint(want[g]) {
					k.failf("GlyphToUnicode(%d) = %x, but the runes that map to it are %x", g, got, want[g])
				}
			}
			k.nontrivial(b, func() string { return fmt.Sprintf("%v / %v", f.Subs[0].Map, f.Subs[1].Map) })
		})
	})
}
