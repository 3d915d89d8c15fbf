package harness

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strings"
	"testing"

	"github.com/tdewolff/font"
)

// genList draws a list of glyphs to keep.
func (k *Case) genList(n int, cff bool) []uint16 {
	var list []uint16
	in := map[int]bool{}
	add := func(g int) {
		if !in[g] || k.P(2) {
			in[g] = true
			list = append(list, uint16(g))
		}
	}
	if cff || !k.P(5) {
		add(0)
	}
	kind := k.U(7)
	any := func() int { return k.U(n) }
	if 1000 < n { // nearly all of them are empty
		if kind == 1 {
			kind = 2
		}
		any = func() int {
			if g := k.drawn; 0 < len(g) && k.P(60) && g[0] < n {
				return min(n-1, g[k.U(len(g))])
			}
			return k.U(n)
		}
	} else if 250 < n && k.P(40) {
		kind = 6
	}
	switch kind {
	case 6: // the first few
		end := 1 + k.U(n)
		if 250 < n {
			end = min(n, pick(k, 256, 257, 258, 259))
		}
		for i := 0; i < end; i++ {
			if !in[i] {
				add(i)
			}
		}
	case 0: // everything
		for i := 0; i < n; i++ {
			if !in[i] {
				add(i)
			}
		}
	case 1: // most
		for i := 0; i < n; i++ {
			if !in[i] && k.P(80) {
				add(i)
			}
		}
	case 2, 3: // any, in any order
		for i := k.I(0, min(2*n, 40)); 0 < i; i-- {
			add(any())
		}
	case 4: // some from the end
		for i := n - 1; 0 < i && len(list) < 30; i-- {
			if k.B() {
				add(i)
			}
		}
	default: // few
		add(any())
		add(any())
	}
	if len(list) == 0 {
		add(k.U(n))
	}
	return list
}

// genOpt draws a table selection; full ones can be parsed again.
func (k *Case) genOpt(m *mFont, full bool) []string {
	switch k.U(5) {
	case 0:
		return []string{"min"}
	case 1:
		return []string{"pdf"}
	case 2, 3:
		return []string{"all"}
	}
	var opt []string
	for _, tag := range tagList(minTables) {
		if full && m.tables[tag] || k.P(70) {
			opt = append(opt, tag)
		}
	}
	for _, tag := range tagList(m.tables) {
		if k.P(50) && !slices.Contains(opt, tag) {
			opt = append(opt, tag)
		}
	}
	sort.Strings(opt)
	if k.P(30) {
		opt = append(opt, pick(k, "none", "QQQQ", "GPOS"))
	}
	return k.shuffle(opt)
}

func tagList(m map[string]bool) []string {
	var tags []string
	for tag := range m {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	return tags
}

var optSelections = map[string][]string{"min": font.KeepMinTables, "all": font.KeepAllTables, "pdf": font.KeepPDFTables}

// subset runs Subset and checks that its arguments stay as they are.
func (k *Case) subset(s *font.SFNT, list []uint16, opt []string) *font.SFNT {
	k.Helper()
	back := make([]uint16, len(list), len(list)+10)
	copy(back, list)
	spare := back[len(list):cap(back)]
	for i := range spare {
		spare[i] = 0xABCD
	}
	tags := append([]string{}, opt...)
	if len(opt) == 1 && k.B() {
		if sel, ok := optSelections[opt[0]]; ok {
			tags = sel
		}
	}
	var sub *font.SFNT
	var err error
	k.guard(fmt.Sprintf("Subset(%v, %v)", list, opt), func() { sub, err = s.Subset(back, font.SubsetOptions{Tables: tags}) })
	if err != nil {
		k.failf("Subset(%v, %v): %v", list, opt, err)
	}
	if !slices.Equal(back, list) {
		k.failf("Subset changed the caller's list from %v to %v", list, back)
	}
	for _, v := range spare {
		if v != 0xABCD {
			k.failf("Subset wrote into the spare capacity of the caller's list")
		}
	}
	if !slices.Equal(tags, opt) {
		k.failf("Subset changed the caller's table list from %q to %q", opt, tags)
	}
	return sub
}

func editOpt(k *Case) FontOpt {
	return FontOpt{Edit: true, PlainMap: true, NoCID: true, BigN: true, HugeN: 1}
}

func (k *Case) tweakMap(f *Font) {
	if k.P(6) {
		k.bigMap(f)
	}
}

func TestP24(t *testing.T) {
	run(t, "P24", "the subset keeps at least one drawn glyph besides the missing one and drops or reorders others; distinct by list and font", func(c *Ctx) {
		c.check("subset", c.n(1600, 25000), func(k *Case) {
			o := editOpt(k)
			o.Flavour, o.NoKern, o.Wide = 1, true, true
			f := k.genFont(o)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			list, opt := k.genList(f.N(), false), k.genOpt(m, true)
			k.note("list %v tables %v", list, opt)
			sub := k.subset(s, list, opt)
			m2 := k.modelSubset(m, list, opt, sub)
			k.checkEdited(sub, m2, "the subset", partOutlines)
			k.checkRewritten(sub.Tables, m2, "the subset")
			if s2 := k.reparse(sub, m2, "subset"); s2 != nil {
				k.checkEdited(s2, m2, "the written subset", partOutlines)
			}
			k.class("selection %s", selName(opt))
			k.classIf(len(list) < m2.N(), "components added")
			drawn, moved := 0, m2.N() != f.N()
			for i, g := range list {
				moved = moved || int(g) != i
				if g != 0 && !f.Glyphs[g].isEmpty() {
					drawn++
				}
				k.classIf(0 < len(f.Glyphs[g].Comps), "composite kept")
			}
			if 0 < drawn && moved {
				k.nontrivial(append(fmt.Append(nil, list), b...), func() string { return fmt.Sprintf("%v of %s", list, f) })
			}
		})
		c.check("large", c.n(40, 600), func(k *Case) {
			// glyph data around the limit of the short glyph locations
			f := k.genFont(FontOpt{Flavour: 1, Edit: true, NoKern: true, MaxN: 8, PlainMap: true})
			f.PostV = 3
			extra := pick(k, 65536, 65530, 65540, 131070, 131072, 131080, 40000)
			for size := 0; size < extra; {
				n := pick(k, 2000, 500, 8000)
				if size+n > extra {
					n = extra - size
				}
				g := &Glyph{Contours: [][]Pt{{{0, 0, true}, {10, 10, true}, {k.U(300), 5, true}}}, Instr: k.blob(n)}
				g.Adv, g.LSB = 500, 0
				f.Glyphs = append(f.Glyphs, g)
				g.BBox = trueBBox(f.Glyphs, f.N()-1)
				size += n + 28
			}
			f.NHM, f.NVM = f.N(), 0
			f.LocaFmt = 1
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			var list []uint16
			for i := range f.Glyphs {
				list = append(list, uint16(i))
			}
			opt := []string{pick(k, "min", "pdf")}
			sub := k.subset(s, list, opt)
			m2 := k.modelSubset(m, list, opt, sub)
			k.checkRewritten(sub.Tables, m2, "the subset")
			s2 := k.reparse(sub, m2, "subset")
			k.checkEdited(s2, m2, "the written subset", partOutlines)
			k.class("glyf over 65535: %v over 131071: %v", 65535 < len(sub.Tables["glyf"]), 131071 < len(sub.Tables["glyf"]))
			k.nontrivial(b, func() string { return fmt.Sprintf("%d glyphs, %d bytes of them", f.N(), len(sub.Tables["glyf"])) })
		})
	})
}

func TestP25(t *testing.T) {
	run(t, "P25", "the subset keeps at least two glyphs and drops or reorders others, and has a mapped rune or a kerning pair; distinct by list and font", func(c *Ctx) {
		c.check("subset", c.n(2000, 30000), func(k *Case) {
			o := editOpt(k)
			o.NoSubrs = true
			f := k.genFont(o)
			k.tweakMap(f)
			if k.P(50) {
				k.genKernRich(f)
			}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			list, opt := k.genList(f.N(), f.CFF), k.genOpt(m, true)
			k.note("list %v tables %v", list, opt)
			sub := k.subset(s, list, opt)
			m2 := k.modelSubset(m, list, opt, sub)
			const parts = partMetrics | partCmap | partKern
			k.checkEdited(sub, m2, "the subset", parts)
			s2 := k.reparse(sub, m2, "subset")
			k.checkEdited(s2, m2, "the written subset", parts)
			if err := validTables(sub.Tables, m2); err != nil {
				k.failf("the subset: %v", err)
			}
			if b := sub.Tables["OS/2"]; b != nil && m2.tables["cmap"] {
				if err := sameRanges(b, m2.runes); err != nil {
					k.failf("the subset: %v", err)
				}
				k.class("Unicode ranges")
			}
			pairs := 0
			for i := range m2.gl {
				for j := range m2.gl {
					if i < 60 && j < 60 && m2.tables["kern"] && m2.kern(i, j) != 0 {
						pairs++
					}
				}
			}
			k.classIf(0 < pairs, "kerning kept")
			k.classIf(0 < len(m2.runes), "runes kept")
			k.class("selection %s", selName(opt))
			moved := m2.N() != f.N()
			for i, g := range list {
				moved = moved || int(g) != i
			}
			if 1 < len(list) && moved && (0 < pairs || 0 < len(m2.runes)) {
				k.nontrivial(append(fmt.Append(nil, list), b...), func() string {
					return fmt.Sprintf("%v of %s: %d runes, %d pairs", list, f, len(m2.runes), pairs)
				})
			}
		})
		c.check("ranges", c.n(60, 1500), func(k *Case) {
			// few runes at a time, at the edges of the Unicode blocks
			n := 12 + k.U(30)
			f := k.genFont(FontOpt{Flavour: 1, MinN: n, MaxN: 2, Edit: true, PlainMap: true, NoVert: true, NoKern: true, NoExtra: true})
			if !f.HasOS2 {
				return
			}
			runes := map[rune]int{}
			for i := 1; i < f.N(); i++ {
				for j := 1 + k.U(3); 0 < j; j-- {
					runes[k.blockRune()] = i
				}
			}
			f.Subs = []*Sub{{Platform: 0, Encoding: 4, Format: 12, Map: runes}}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			for i := 0; i < 20; i++ {
				list, opt := []uint16{0, uint16(1 + k.U(f.N()-1))}, []string{"all"}
				if k.P(30) {
					if g := uint16(1 + k.U(f.N()-1)); g != list[1] {
						list = append(list, g)
					}
				}
				sub := k.subset(s, list, opt)
				m2 := k.modelSubset(m, list, opt, sub)
				if err := sameRanges(sub.Tables["OS/2"], m2.runes); err != nil {
					k.failf("the subset %v: %v", list, err)
				}
				if i == 0 {
					s2 := k.reparse(sub, m2, "subset")
					k.checkEdited(s2, m2, "the written subset", partCmap)
				}
			}
			k.nontrivial(b, func() string { return fmt.Sprintf("20 subsets of %s", f) })
		})
		c.check("manykern", c.n(12, 150), func(k *Case) {
			// more pairs than a subtable's length can tell
			n := 80 + k.U(60)
			f := k.genFont(FontOpt{Flavour: 1, MinN: n, MaxN: 2, Edit: true, PlainMap: true, NoVert: true, NoKern: true, NoExtra: true})
			f.HasKern = true
			st := KernSub{Format: 0}
			np := pick(k, 10900, 10920, 10921, 10925, 12000, 6000)
			for i := 0; i < f.N(); i++ {
				for j := 0; j < f.N() && len(st.Pairs) < np; j++ {
					st.Pairs = append(st.Pairs, KernPair{i, j, 1 + k.U(50)})
				}
			}
			f.Kern = []KernSub{st}
			b := f.bytes(k)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			var list []uint16
			for i := range f.Glyphs {
				if i == 0 || !k.P(2) {
					list = append(list, uint16(i))
				}
			}
			opt := []string{"all"}
			sub := k.subset(s, list, opt)
			m2 := k.modelSubset(m, list, opt, sub)
			k.checkEdited(sub, m2, "the subset", partKern)
			s2 := k.reparse(sub, m2, "subset")
			k.checkEdited(s2, m2, "the written subset", partKern)
			if err := validTables(sub.Tables, m2); err != nil {
				k.failf("the subset: %v", err)
			}
			k.nontrivial(b, func() string { return fmt.Sprintf("%d glyphs, %d pairs", f.N(), np) })
		})
	})
}

// unicodeBlocks are blocks of the OS/2 Unicode ranges. The first block of a range is required to set its bit, others may.
var unicodeBlocks = []struct {
	bit    int
	blocks [][2]rune
}{
	{0, [][2]rune{{0x0, 0x7F}}}, {1, [][2]rune{{0x80, 0xFF}}}, {2, [][2]rune{{0x100, 0x17F}}}, {3, [][2]rune{{0x180, 0x24F}}},
	{4, [][2]rune{{0x250, 0x2AF}, {0x1D00, 0x1DBF}}}, {5, [][2]rune{{0x2B0, 0x2FF}, {0xA700, 0xA71F}}},
	{6, [][2]rune{{0x300, 0x36F}, {0x1DC0, 0x1DFF}}}, {7, [][2]rune{{0x370, 0x3FF}}}, {8, [][2]rune{{0x2C80, 0x2CFF}}},
	{9, [][2]rune{{0x400, 0x4FF}, {0x500, 0x52F}, {0x2DE0, 0x2DFF}, {0xA640, 0xA69F}}}, {10, [][2]rune{{0x530, 0x58F}}},
	{11, [][2]rune{{0x590, 0x5FF}}}, {12, [][2]rune{{0xA500, 0xA63F}}}, {13, [][2]rune{{0x600, 0x6FF}, {0x750, 0x77F}}},
	{14, [][2]rune{{0x7C0, 0x7FF}}}, {15, [][2]rune{{0x900, 0x97F}}}, {16, [][2]rune{{0x980, 0x9FF}}}, {17, [][2]rune{{0xA00, 0xA7F}}},
	{18, [][2]rune{{0xA80, 0xAFF}}}, {19, [][2]rune{{0xB00, 0xB7F}}}, {20, [][2]rune{{0xB80, 0xBFF}}}, {21, [][2]rune{{0xC00, 0xC7F}}},
	{22, [][2]rune{{0xC80, 0xCFF}}}, {23, [][2]rune{{0xD00, 0xD7F}}}, {24, [][2]rune{{0xE00, 0xE7F}}}, {25, [][2]rune{{0xE80, 0xEFF}}},
	{26, [][2]rune{{0x10A0, 0x10FF}, {0x2D00, 0x2D2F}}}, {27, [][2]rune{{0x1B00, 0x1B7F}}}, {28, [][2]rune{{0x1100, 0x11FF}}},
	{29, [][2]rune{{0x1E00, 0x1EFF}, {0x2C60, 0x2C7F}, {0xA720, 0xA7FF}}}, {30, [][2]rune{{0x1F00, 0x1FFF}}},
	{31, [][2]rune{{0x2000, 0x206F}, {0x2E00, 0x2E7F}}}, {32, [][2]rune{{0x2070, 0x209F}}}, {33, [][2]rune{{0x20A0, 0x20CF}}},
	{34, [][2]rune{{0x20D0, 0x20FF}}}, {35, [][2]rune{{0x2100, 0x214F}}}, {36, [][2]rune{{0x2150, 0x218F}}},
	{37, [][2]rune{{0x2190, 0x21FF}, {0x27F0, 0x27FF}, {0x2900, 0x297F}, {0x2B00, 0x2BFF}}},
	{38, [][2]rune{{0x2200, 0x22FF}, {0x2A00, 0x2AFF}, {0x27C0, 0x27EF}, {0x2980, 0x29FF}}}, {39, [][2]rune{{0x2300, 0x23FF}}},
	{40, [][2]rune{{0x2400, 0x243F}}}, {41, [][2]rune{{0x2440, 0x245F}}}, {42, [][2]rune{{0x2460, 0x24FF}}}, {43, [][2]rune{{0x2500, 0x257F}}},
	{44, [][2]rune{{0x2580, 0x259F}}}, {45, [][2]rune{{0x25A0, 0x25FF}}}, {46, [][2]rune{{0x2600, 0x26FF}}}, {47, [][2]rune{{0x2700, 0x27BF}}},
	{48, [][2]rune{{0x3000, 0x303F}}}, {49, [][2]rune{{0x3040, 0x309F}}}, {50, [][2]rune{{0x30A0, 0x30FF}, {0x31F0, 0x31FF}}},
	{51, [][2]rune{{0x3100, 0x312F}, {0x31A0, 0x31BF}}}, {52, [][2]rune{{0x3130, 0x318F}}}, {53, [][2]rune{{0xA840, 0xA87F}}},
	{54, [][2]rune{{0x3200, 0x32FF}}}, {55, [][2]rune{{0x3300, 0x33FF}}}, {56, [][2]rune{{0xAC00, 0xD7A3}, {0xD7A4, 0xD7AF}}},
	{57, [][2]rune{{0x10000, 0x10FFFF}, {0xD800, 0xDFFF}}},
	{59, [][2]rune{{0x4E00, 0x9FFF}, {0x2E80, 0x2FDF}, {0x2FF0, 0x2FFF}, {0x3400, 0x4DBF}, {0x20000, 0x2A6DF}, {0x3190, 0x319F}}},
	{60, [][2]rune{{0xE000, 0xF8FF}}}, {61, [][2]rune{{0x31C0, 0x31EF}, {0xF900, 0xFAFF}, {0x2F800, 0x2FA1F}}}, {62, [][2]rune{{0xFB00, 0xFB4F}}},
	{63, [][2]rune{{0xFB50, 0xFDFF}}}, {64, [][2]rune{{0xFE20, 0xFE2F}}}, {65, [][2]rune{{0xFE10, 0xFE1F}, {0xFE30, 0xFE4F}}},
	{66, [][2]rune{{0xFE50, 0xFE6F}}}, {67, [][2]rune{{0xFE70, 0xFEFF}}}, {68, [][2]rune{{0xFF00, 0xFFEF}}}, {69, [][2]rune{{0xFFF0, 0xFFFF}}},
	{70, [][2]rune{{0xF00, 0xFFF}}}, {71, [][2]rune{{0x700, 0x74F}}}, {72, [][2]rune{{0x780, 0x7BF}}}, {73, [][2]rune{{0xD80, 0xDFF}}},
	{74, [][2]rune{{0x1000, 0x109F}}}, {75, [][2]rune{{0x1200, 0x137F}, {0x1380, 0x139F}, {0x2D80, 0x2DDF}}}, {76, [][2]rune{{0x13A0, 0x13FF}}},
	{77, [][2]rune{{0x1400, 0x167F}}}, {78, [][2]rune{{0x1680, 0x169F}}}, {79, [][2]rune{{0x16A0, 0x16FF}}},
	{80, [][2]rune{{0x1780, 0x17FF}, {0x19E0, 0x19FF}}}, {81, [][2]rune{{0x1800, 0x18AF}}}, {82, [][2]rune{{0x2800, 0x28FF}}},
	{83, [][2]rune{{0xA000, 0xA48F}, {0xA490, 0xA4CF}}}, {84, [][2]rune{{0x1700, 0x171F}, {0x1720, 0x177F}}}, {85, [][2]rune{{0x10300, 0x1032F}}},
	{86, [][2]rune{{0x10330, 0x1034F}}}, {87, [][2]rune{{0x10400, 0x1044F}}}, {88, [][2]rune{{0x1D000, 0x1D0FF}, {0x1D100, 0x1D24F}}},
	{89, [][2]rune{{0x1D400, 0x1D7FF}}}, {90, [][2]rune{{0xF0000, 0xFFFFD}, {0x100000, 0x10FFFD}}}, {91, [][2]rune{{0xFE00, 0xFE0F}, {0xE0100, 0xE01EF}}},
	{92, [][2]rune{{0xE0000, 0xE007F}}}, {93, [][2]rune{{0x1900, 0x194F}}}, {94, [][2]rune{{0x1950, 0x197F}}}, {95, [][2]rune{{0x1980, 0x19DF}}},
	{96, [][2]rune{{0x1A00, 0x1A1F}}}, {97, [][2]rune{{0x2C00, 0x2C5F}}}, {98, [][2]rune{{0x2D30, 0x2D7F}}}, {99, [][2]rune{{0x4DC0, 0x4DFF}}},
	{100, [][2]rune{{0xA800, 0xA82F}}}, {101, [][2]rune{{0x10000, 0x1007F}, {0x10080, 0x100FF}, {0x10100, 0x1013F}}},
	{102, [][2]rune{{0x10140, 0x1018F}}}, {103, [][2]rune{{0x10380, 0x1039F}}}, {104, [][2]rune{{0x103A0, 0x103DF}}},
	{105, [][2]rune{{0x10450, 0x1047F}}}, {106, [][2]rune{{0x10480, 0x104AF}}}, {107, [][2]rune{{0x10800, 0x1083F}}},
	{108, [][2]rune{{0x10A00, 0x10A5F}}}, {109, [][2]rune{{0x1D300, 0x1D35F}}}, {110, [][2]rune{{0x12000, 0x123FF}, {0x12400, 0x1247F}}},
	{111, [][2]rune{{0x1D360, 0x1D37F}}}, {112, [][2]rune{{0x1B80, 0x1BBF}}}, {113, [][2]rune{{0x1C00, 0x1C4F}}}, {114, [][2]rune{{0x1C50, 0x1C7F}}},
	{115, [][2]rune{{0xA880, 0xA8DF}}}, {116, [][2]rune{{0xA900, 0xA92F}}}, {117, [][2]rune{{0xA930, 0xA95F}}}, {118, [][2]rune{{0xAA00, 0xAA5F}}},
	{119, [][2]rune{{0x10190, 0x101CF}}}, {120, [][2]rune{{0x101D0, 0x101FF}}}, {121, [][2]rune{{0x102A0, 0x102DF}, {0x10280, 0x1029F}, {0x10920, 0x1093F}}},
	{122, [][2]rune{{0x1F030, 0x1F09F}, {0x1F000, 0x1F02F}}},
}

// sameRanges checks the Unicode ranges in an OS/2 table; ranges that are not listed above are not judged.
func sameRanges(b []byte, runes map[rune]map[int]bool) error {
	var v [4]uint32
	for i := range v {
		v[i] = be32(b, 42+4*i)
	}
	for _, u := range unicodeBlocks {
		must, may := rune(-1), false
		for r := range runes {
			for i, bl := range u.blocks {
				if bl[0] <= r && r <= bl[1] {
					may = true
					if i == 0 && (must == -1 || r < must) {
						must = r
					}
				}
			}
		}
		set := v[u.bit/32]&(1<<(u.bit%32)) != 0
		if set && !may {
			return fmt.Errorf("OS/2: Unicode range %d is set without any of its runes", u.bit)
		} else if !set && must != -1 {
			return fmt.Errorf("OS/2: Unicode range %d is not set, the font maps %U", u.bit, must)
		}
	}
	return nil
}

func TestP26(t *testing.T) {
	run(t, "P26", "the font has subroutines and the subset keeps a drawn glyph while dropping or reordering others; distinct by list and font", func(c *Ctx) {
		c.check("subset", c.n(1600, 25000), func(k *Case) {
			o := editOpt(k)
			o.Flavour, o.NoKern, o.NoVert, o.NoExtra = 2, true, true, true
			o.Huge = true
			f := k.genFont(o)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			list, opt := k.genList(f.N(), true), k.genOpt(m, true)
			k.note("list %v tables %v", list, opt)
			sub := k.subset(s, list, opt)
			m2 := k.modelSubset(m, list, opt, sub)
			k.checkEdited(sub, m2, "the subset", partOutlines|partNames)
			k.checkRewritten(sub.Tables, m2, "the subset")
			s2 := k.reparse(sub, m2, "subset")
			k.checkEdited(s2, m2, "the written subset", partOutlines|partNames)
			src, err := refParseCFF(s.Tables["CFF "])
			if err != nil {
				panic(err)
			}
			k.sameDicts(src, sub.Tables["CFF "], "the subset")
			k.class("selection %s", selName(opt))
			k.class("global subrs %d local %d", min(3, len(src.globals)), min(3, len(f.CFFM.Priv[0].Locals)))
			drawn, moved := 0, len(list) != f.N()
			for i, g := range list {
				moved = moved || int(g) != i
				if g != 0 && 0 < len(f.Glyphs[g].Ops.Path) {
					drawn++
				}
			}
			if 0 < drawn && moved && f.CFFM.Subrs {
				k.nontrivial(append(fmt.Append(nil, list), b...), func() string { return fmt.Sprintf("%v of %s", list, f) })
			}
		})
		c.check("index", c.n(120, 1500), func(k *Case) {
			// strings whose total length needs another number of bytes per offset
			o := editOpt(k)
			o.Flavour, o.NoKern, o.NoVert, o.NoExtra, o.BigN, o.HugeN, o.MaxN = 2, true, true, true, false, 0, 8
			f := k.genFont(o)
			f.CFFM.Top = slices.DeleteFunc(f.CFFM.Top, func(d DictOp) bool { return d.Op == 1 })
			f.CFFM.Top = append(f.CFFM.Top, DictOp{Op: 1, IsS: true})
			notice := &f.CFFM.Top[len(f.CFFM.Top)-1]
			list, opt := k.genList(f.N(), true), []string{"all"}
			letters := k.blob(64)
			for i := range letters {
				letters[i] = 0x20 + letters[i]%95
			}
			total := pick(k, 254, 255, 256, 65534, 65535, 65536, 100000, 32760)
			if k.P(4) {
				total = 1<<24 - 2 + k.U(4)
			}
			size := 0
			for try := 0; try < 2; try++ {
				if size < 0 {
					return
				}
				notice.Str = "the notice" + strings.Repeat(string(letters), size/64+1)[:size]
				b := f.bytes(k)
				k.artifact("font", b)
				s := k.mustParse(b, "font")
				m := modelOf(f)
				sub := k.subset(s, list, opt)
				m2 := k.modelSubset(m, list, opt, sub)
				k.checkEdited(sub, m2, "the subset", partOutlines|partNames)
				k.checkRewritten(sub.Tables, m2, "the subset")
				k.checkEdited(k.reparse(sub, m2, "subset"), m2, "the written subset", partOutlines|partNames)
				src, err := refParseCFF(s.Tables["CFF "])
				if err != nil {
					panic(err)
				}
				k.sameDicts(src, sub.Tables["CFF "], "the subset")
				res, err := refParseCFF(sub.Tables["CFF "])
				if err != nil {
					panic(err)
				}
				n := 0
				for _, str := range res.strings {
					n += len(str)
				}
				if try == 1 {
					k.class("%d bytes of strings", n)
					if n != total {
						k.class("another length than aimed at")
					}
					if f.CFFM.Subrs {
						k.nontrivial(append(fmt.Append(nil, list), b...), func() string { return fmt.Sprintf("%v of %s, %d bytes of strings", list, f, n) })
					}
				}
				size += total - n
			}
		})
	})
}

// fieldsOf lists what the exported fields of the parsed tables say.
func fieldsOf(s *font.SFNT) map[string]string {
	m := map[string]string{}
	add := func(name string, p any) {
		v := reflect.ValueOf(p)
		if v.IsNil() {
			return
		}
		v = v.Elem()
		for i := 0; i < v.NumField(); i++ {
			t := v.Type().Field(i)
			if !t.IsExported() || t.Name == "Modified" || t.Name == "CheckSumAdjustment" {
				continue
			}
			x := v.Field(i)
			if x.Kind() == reflect.Slice && x.Len() == 0 {
				m[name+"."+t.Name] = "[]"
				continue
			}
			m[name+"."+t.Name] = fmt.Sprintf("%v", x.Interface())
		}
	}
	add("head", s.Head)
	add("hhea", s.Hhea)
	add("vhea", s.Vhea)
	add("hmtx", s.Hmtx)
	add("vmtx", s.Vmtx)
	add("maxp", s.Maxp)
	add("OS/2", s.OS2)
	add("post", s.Post)
	if s.CFF != nil && s.CFF.Version() == 1 {
		if d := s.CFF.TopDICT(); d != nil {
			dict(m, "CFF Top DICT", d, "Charset", "Encoding", "CharStrings", "PrivateOffset", "PrivateLength", "FDArray", "FDSelect", "Vstore")
		}
		for _, g := range []uint16{0, uint16(max(1, int(s.NumGlyphs()))) - 1} {
			if d, err := s.CFF.PrivateDICT(g); err == nil && d != nil {
				dict(m, fmt.Sprintf("CFF Private DICT of %d", g), d, "Subrs", "Vsindex", "Blend")
			}
		}
	}
	m["length"] = fmt.Sprint(s.Length)
	m["flavour"] = fmt.Sprint(s.IsTrueType, s.IsCFF)
	return m
}

// dict adds the exported fields of a DICT, other than places in the file.
func dict(m map[string]string, name string, d any, skip ...string) {
	v := reflect.ValueOf(d).Elem()
	for i := 0; i < v.NumField(); i++ {
		t := v.Type().Field(i)
		if !t.IsExported() || slices.Contains(skip, t.Name) {
			continue
		}
		x := v.Field(i)
		if x.Kind() == reflect.Slice && x.Len() == 0 {
			m[name+"."+t.Name] = "[]"
		} else if x.Kind() == reflect.Float64 && x.Float() == 0 {
			m[name+"."+t.Name] = "0" // not -0
		} else {
			str := fmt.Sprintf("%v", x.Interface())
			if k := x.Kind(); k == reflect.Slice || k == reflect.Array {
				str = noMinus0(strings.Fields(strings.Trim(str, "[]")))
			}
			m[name+"."+t.Name] = str
		}
	}
}

func (k *Case) sameFields(a, b *font.SFNT, what string) {
	k.Helper()
	x, y := fieldsOf(a), fieldsOf(b)
	for n, v := range x {
		if w, ok := y[n]; !ok || v != w {
			if (n == "OS/2.SxHeight" || n == "OS/2.SCapHeight") && a.OS2.Version < 2 {
				continue // not stored: estimates from glyphs that may be gone
			}
			k.failf("%s: %s is %.200s or %.200s", what, n, v, w)
		}
	}
	for n, w := range y {
		if _, ok := x[n]; !ok {
			k.failf("%s: %s is missing or %.200s", what, n, w)
		}
	}
}

// snapshot is everything about a font that an operation on another must not change.
type snapshot struct {
	tables map[string][]byte
	obs    *Obs
	fields map[string]string
}

func snap(s *font.SFNT, n int) *snapshot {
	t := map[string][]byte{}
	for tag, b := range s.Tables {
		t[tag] = append([]byte{}, b...)
	}
	return &snapshot{t, observe(s, n), fieldsOf(s)}
}

func (k *Case) sameSnap(s *font.SFNT, old *snapshot, what string) {
	k.Helper()
	if len(s.Tables) != len(old.tables) {
		k.failf("%s: %d tables instead of %d", what, len(s.Tables), len(old.tables))
	}
	for tag, b := range old.tables {
		if !bytes.Equal(s.Tables[tag], b) {
			k.failf("%s: table %q has changed: %s", what, tag, diffBytes(s.Tables[tag], b))
		}
	}
	k.sameObs(old.obs, observe(s, old.obs.n), what)
	f := fieldsOf(s)
	for n, v := range old.fields {
		if f[n] != v {
			k.failf("%s: %s was %.200s and is %.200s", what, n, v, f[n])
		}
	}
}

func TestP27(t *testing.T) {
	run(t, "P27", "at least two subsets of one font, one of them smaller than the font; distinct by font and lists", func(c *Ctx) {
		c.check("source", c.n(700, 10000), func(k *Case) {
			o := editOpt(k)
			o.BigN, o.HugeN = k.P(20), 0
			f := k.genFont(o)
			b := f.bytes(k)
			k.artifact("font", b)
			keep := append([]byte{}, b...)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			n := f.N()
			before := snap(k.mustParse(b, "font"), n)
			if k.B() {
				before = snap(s, n) // fills the lazy caches
			}
			key := append([]byte{}, b...)
			small := false
			count := 2 + k.U(3)
			for i := 0; i < count; i++ {
				list, opt := k.genList(n, f.CFF), k.genOpt(m, false)
				k.note("list %v tables %v", list, opt)
				key = fmt.Append(key, list, opt)
				small = small || len(list) < n
				sub := k.subset(s, list, opt)
				m2 := k.modelSubset(m, list, opt, sub2(sub, s, list, k))
				k.checkTables(sub, m2, "the subset")
				fresh := k.subset(k.mustParse(b, "font"), list, opt)
				if err := sameTables(sub.Tables, fresh.Tables, false); err != nil {
					k.failf("subset %d of one font is not as if made from a fresh copy: %v", i+1, err)
				}
				k.class("selection %s", selName(opt))
				// editing the subset must not reach the source
				if k.P(30) {
					names := make([]string, sub.NumGlyphs())
					for j := range names {
						names[j] = fmt.Sprintf("n%d", j)
					}
					k.guard("SetGlyphNames", func() { sub.SetGlyphNames(names) })
				}
				k.guard("WriteWOFF2", func() { sub.WriteWOFF2() })
				k.sameSnap(s, before, fmt.Sprintf("the source after subset %d", i+1))
			}
			if !bytes.Equal(b, keep) {
				k.failf("the bytes the font was parsed from have changed: %s", diffBytes(b, keep))
			}
			k.sameSnap(s, before, "the source")
			if small {
				k.nontrivial(key, func() string { return fmt.Sprintf("%d subsets of %s", count, f) })
			}
		})
	})
}

// sub2 is a subset that has the tables by which components are identified.
func sub2(sub, s *font.SFNT, list []uint16, k *Case) *font.SFNT {
	if s.IsCFF {
		return sub
	}
	for _, t := range []string{"glyf", "loca", "head", "maxp"} {
		if _, ok := sub.Tables[t]; !ok {
			return k.subset(s, list, []string{"pdf"})
		}
	}
	return sub
}

// memoryEqualsWritten checks P28 for one font.
func (k *Case) memoryEqualsWritten(s *font.SFNT, m *mFont, what string) *font.SFNT {
	k.Helper()
	n := m.N()
	if err := validTables(s.Tables, m); err != nil {
		k.failf("%s (%s): %v", what, m.hist, err)
	}
	s2 := k.reparse(s, m, what)
	if s2 == nil {
		return nil
	}
	if s2.Hmtx == nil && m.cff {
		k.class("embedded CFF: only outlines and map")
		return s2
	}
	k.sameObs(observe(s, n), observe(s2, n), what+" ("+m.hist+") in memory and after writing")
	k.sameFields(s, s2, what+" ("+m.hist+") in memory and after writing")
	var rs []rune
	rs = append(rs, k.nearRunes(m.runes)...)
	rs = append(rs, sortedRuneSet(m.runes)...)
	for _, r := range rs {
		if a, b := s.GlyphIndex(r), s2.GlyphIndex(r); a != b {
			k.failf("%s (%s): rune %U has glyph %d in memory and %d after writing", what, m.hist, r, a, b)
		}
	}
	return s2
}

func TestP28(t *testing.T) {
	run(t, "P28", "the edited font has at least two glyphs, one of them drawn; distinct by written file", func(c *Ctx) {
		c.check("edit", c.n(1200, 18000), func(k *Case) {
			o := editOpt(k)
			f := k.genFont(o)
			k.tweakMap(f)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			m := modelOf(f)
			what := ""
			switch k.U(3) {
			case 0, 1:
				list, opt := k.genList(f.N(), f.CFF), k.genOpt(m, true)
				k.note("list %v tables %v", list, opt)
				sub := k.subset(s, list, opt)
				s, m = sub, k.modelSubset(m, list, opt, sub)
				what = "the subset"
				k.class("selection %s", selName(opt))
			case 2:
				o2 := o
				o2.Flavour, o2.HugeN = 1, 0
				if f.CFF {
					o2.Flavour = 2
				}
				f2 := k.genFont(o2)
				limitSubrs(f, f2)
				b2 := f2.bytes(k)
				k.artifact("font2", b2)
				re := k.B()
				if !re {
					k.disjoint(f, f2)
					b2 = f2.bytes(k)
				}
				s2 := k.mustParse(b2, "second font")
				var err error
				k.guard("Merge", func() { err = s.Merge(s2, font.MergeOptions{RearrangeCmap: re}) })
				if err != nil {
					k.failf("Merge: %v", err)
				}
				if f2.N() < 2 && !re {
					k.sameSnap(s, snap(k.mustParse(b, "font"), f.N()), "the font after merging nothing")
					k.class("nothing to merge")
					return
				}
				m, _ = m.merge(modelOf(f2), re, 1)
				what = "the merged font"
				k.class("merged")
			}
			if k.P(30) && m.tables["post"] {
				names := k.genNameList(m.N(), f.CFF)
				var err error
				k.guard("SetGlyphNames", func() { err = s.SetGlyphNames(names) })
				if err != nil {
					k.failf("SetGlyphNames(%q): %v", names, err)
				}
				m.rename(names)
				k.class("renamed")
			}
			s2 := k.memoryEqualsWritten(s, m, what)
			k.checkEdited(s2, m, what, partAll)
			drawn := false
			for _, g := range m.gl[1:] {
				drawn = drawn || g.f.CFF && 0 < len(g.f.Glyphs[g.gid].Ops.Path) || !g.f.CFF && !g.f.Glyphs[g.gid].isEmpty()
			}
			if drawn {
				k.nontrivial(append(fmt.Append(nil, m.hist), b...), func() string { return m.hist + " of " + f.String() })
			}
		})
	})
}

func selName(opt []string) string {
	if len(opt) == 1 && (opt[0] == "all" || opt[0] == "min" || opt[0] == "pdf") {
		return opt[0]
	}
	return "explicit"
}

func noMinus0(fs []string) string {
	for i, f := range fs {
		if f == "-0" {
			fs[i] = "0"
		}
	}
	return strings.Join(fs, " ")
}
