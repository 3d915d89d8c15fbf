package harness

// P37: AFM files.  A model is generated first and printed as an AFM file in one of the many
// layouts the format allows; the bundled files are read by a small reader of its own.

import (
	_ "embed"
	"fmt"
	"os"
	"path/filepath"
	"slices"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"github.com/tdewolff/font"
)

//go:embed data/agl.txt
var aglText string

// agl maps the names of the Adobe Glyph List to their (single) character.
var agl = map[string]rune{}
var aglNames []string
var aglMulti []string // names for character sequences

func init() {
	for _, l := range strings.Split(aglText, "\n") {
		name, codes, ok := strings.Cut(l, ";")
		if !ok {
			continue
		}
		if strings.Contains(codes, " ") {
			aglMulti = append(aglMulti, name)
			continue
		}
		v, err := strconv.ParseUint(codes, 16, 32)
		if err != nil {
			panic(err)
		}
		agl[name] = rune(v)
		aglNames = append(aglNames, name)
	}
	slices.Sort(aglNames)
}

// dec is a decimal number in hundredths, as printed in the file.
type dec int

// rounded tells whether r is the integer nearest to d.
func (d dec) rounded(r int) bool { return 2*max(100*r-int(d), int(d)-100*r) <= 100 }

func (k *Case) dec(d dec) string {
	s, n := "", int(d)
	if n < 0 {
		s, n = "-", -n
	}
	if n%100 == 0 && k.U(4) != 0 {
		return s + strconv.Itoa(n/100)
	}
	t := fmt.Sprintf("%s%d.%02d", s, n/100, n%100)
	if strings.HasSuffix(t, "0") && k.B() {
		t = t[:len(t)-1]
	}
	return t
}

func (k *Case) decIn(lo, hi int) dec {
	v := k.I(lo, hi)
	switch k.U(4) {
	case 0:
		return dec(min(100*hi, max(100*lo, 100*v+k.I(-99, 99))))
	case 1:
		return dec(100 * max(lo, min(hi, k.I(-300, 1000))))
	}
	return dec(100 * v)
}

type afmGlyph struct {
	name  string
	code  int
	width dec
	bbox  [4]dec
}

type afmModel struct {
	fontName, fullName, familyName, weight string
	bbox                                   [4]dec
	vals                                   map[string]dec // signed font-wide values by key
	angle                                  dec
	fixed                                  bool
	charWidth                              [2]dec
	hasCharWidth                           bool
	glyphs                                 []afmGlyph
	ligatures                              map[[2]uint16]uint16
	kern                                   map[[2]uint16]dec
}

var afmKeys = []string{"CapHeight", "XHeight", "Ascender", "Descender", "UnderlinePosition", "UnderlineThickness"}

func afmValue(a *font.AFM, key string) int {
	switch key {
	case "CapHeight":
		return int(int16(a.CapHeight))
	case "XHeight":
		return int(int16(a.XHeight))
	case "Ascender":
		return int(int16(a.Ascender))
	case "Descender":
		return int(int16(a.Descender))
	case "UnderlinePosition":
		return int(int16(a.UnderlinePosition))
	}
	return int(int16(a.UnderlineThickness))
}

// checkAFM compares a parsed file with the model.
func (k *Case) checkAFM(a *font.AFM, m *afmModel) {
	words := func(s string) string { return strings.Join(strings.Fields(s), " ") }
	for _, x := range [][3]string{{"FontName", a.FontName, m.fontName}, {"FullName", a.FullName, m.fullName}, {"FamilyName", a.FamilyName, m.familyName}, {"Weight", a.Weight, m.weight}} {
		if words(x[1]) != words(x[2]) {
			k.failf("%s is %q, expected %q", x[0], x[1], x[2])
		}
	}
	for i, v := range m.bbox {
		if !v.rounded(int(a.FontBBox[i])) {
			k.failf("FontBBox is %v, expected hundredths %v", a.FontBBox, m.bbox)
		}
	}
	for _, key := range afmKeys {
		if got := afmValue(a, key); !m.vals[key].rounded(got) {
			k.failf("%s is %d, expected hundredths %d", key, got, m.vals[key])
		}
	}
	if d := a.ItalicAngle - float64(m.angle)/100; d < -1e-9 || 1e-9 < d {
		k.failf("ItalicAngle is %v, expected hundredths %d", a.ItalicAngle, m.angle)
	}
	if a.IsFixedPitch != m.fixed {
		k.failf("IsFixedPitch is %v, expected %v", a.IsFixedPitch, m.fixed)
	}
	if m.hasCharWidth && (!m.charWidth[0].rounded(int(a.CharWidth[0])) || !m.charWidth[1].rounded(int(int16(a.CharWidth[1])))) {
		k.failf("CharWidth is %v, expected hundredths %v", a.CharWidth, m.charWidth)
	}
	n := len(m.glyphs)
	if int(a.NumGlyphs()) != n || len(a.CharMetrics) != n {
		k.failf("%d glyphs, expected %d", a.NumGlyphs(), n)
	}
	gids := map[string]int{}
	byRune := map[rune][]uint16{}
	for i, g := range m.glyphs {
		gids[g.name] = i
		if r, ok := agl[g.name]; ok {
			byRune[r] = append(byRune[r], uint16(i))
		}
	}
	for i, g := range m.glyphs {
		gid := uint16(i)
		if got := a.GlyphName(gid); got != g.name || a.CharMetrics[i].Name != g.name {
			k.failf("glyph %d has name %q (field %q), expected %q", i, got, a.CharMetrics[i].Name, g.name)
		}
		if got := a.FindGlyphName(g.name); got != gid {
			k.failf("name %q is glyph %d, expected %d", g.name, got, gid)
		}
		if got := a.CharMetrics[i].CharacterCode; got != g.code {
			k.failf("glyph %d %q has code %d, expected %d", i, g.name, got, g.code)
		}
		if got := a.GlyphAdvance(gid); !g.width.rounded(int(got)) {
			k.failf("glyph %d %q has advance %d, expected hundredths %d", i, g.name, got, g.width)
		}
		x0, y0, x1, y1 := a.GlyphBounds(gid)
		for j, v := range []int16{x0, y0, x1, y1} {
			if !g.bbox[j].rounded(int(v)) {
				k.failf("glyph %d %q has bounds %d %d %d %d, expected hundredths %v", i, g.name, x0, y0, x1, y1, g.bbox)
			}
		}
		if r, ok := agl[g.name]; ok {
			if got := a.GlyphIndex(r); !slices.Contains(byRune[r], got) {
				k.failf("%U is glyph %d, expected one of %v (%q)", r, got, byRune[r], g.name)
			}
		}
	}
	// what is not listed
	for _, name := range []string{"", "A", "space", "nosuchglyph", "a", "Z", ".notdef", "uni0041"} {
		if _, ok := gids[name]; !ok && a.FindGlyphName(name) != 0 {
			k.failf("unlisted name %q is glyph %d", name, a.FindGlyphName(name))
		}
	}
	for _, r := range []rune{0, -1, 'A', ' ', 'z', 0xE9, 0xFFFD, 0x1F600, 0x10FFFF, unicode.MaxRune + 1} {
		if _, ok := byRune[r]; !ok && a.GlyphIndex(r) != 0 {
			k.failf("unlisted %U is glyph %d", r, a.GlyphIndex(r))
		}
	}
	for _, gid := range []int{n, n + 1, 65535} {
		if gid <= 65535 && n <= gid {
			x0, y0, x1, y1 := a.GlyphBounds(uint16(gid))
			if a.GlyphName(uint16(gid)) != "" || x0 != 0 || y0 != 0 || x1 != 0 || y1 != 0 || !m.fixed && a.GlyphAdvance(uint16(gid)) != 0 {
				k.failf("glyph %d of %d has a name, bounds or an advance", gid, n)
			}
		}
	}
	if len(a.Ligatures) != len(m.ligatures) {
		k.failf("ligatures %v, expected %v", a.Ligatures, m.ligatures)
	}
	for p, g := range m.ligatures {
		if a.Ligatures[p] != g {
			k.failf("ligatures %v, expected %v", a.Ligatures, m.ligatures)
		}
	}
	for p, v := range m.kern {
		if got := a.Kerning(p[0], p[1]); !v.rounded(int(got)) {
			k.failf("kerning of %v is %d, expected hundredths %d", p, got, v)
		}
	}
	for p, v := range a.KernPairs {
		if _, ok := m.kern[p]; !ok && v != 0 {
			k.failf("kerning of unlisted pair %v is %d", p, v)
		}
	}
	for l := 0; l < min(n, 30); l++ {
		for r := 0; r < min(n, 30); r++ {
			if _, ok := m.kern[[2]uint16{uint16(l), uint16(r)}]; !ok && a.Kerning(uint16(l), uint16(r)) != 0 {
				k.failf("kerning of unlisted pair %d %d is %d", l, r, a.Kerning(uint16(l), uint16(r)))
			}
		}
	}
	if a.Kerning(uint16(n), 0) != 0 || a.Kerning(0, 65535) != 0 && n < 65535 {
		k.failf("kerning of glyphs that do not exist")
	}
}

func (k *Case) afmName(used map[string]bool) string {
	for {
		var s string
		switch k.U(6) {
		case 0:
			s = pick(k, "a", "c", "glyph", "cid", "f_", "x.", "uni20A", "G") + strconv.Itoa(k.U(300))
		case 1:
			s = pick(k, "A", "B", "space", "f", "i", "l", "fi", "fl", "V", "zero", "eacute", "Euro", "nbspace", "Delta", "increment", "mu", "mu1", ".notdef", "a1")
		case 2:
			s = aglMulti[k.U(len(aglMulti))]
		default:
			s = aglNames[k.U(len(aglNames))]
		}
		// never until-random: a stuck source of choices must end
		for i := 0; used[s]; i++ {
			s = s + "." + strconv.Itoa(i)
		}
		used[s] = true
		return s
	}
}

func (k *Case) genAFM() (*afmModel, string) {
	m := &afmModel{vals: map[string]dec{}, ligatures: map[[2]uint16]uint16{}, kern: map[[2]uint16]dec{}}
	eol := pick(k, "\n", "\n", "\r\n")
	var lines []string
	add := func(l string) { lines = append(lines, l) }
	sp := func() string { return pick(k, " ", " ", " ", " ", "  ", "\t", " \t ") }
	end := func() string { return pick(k, "", "", "", " ", "\t", "   ") }
	kv := func(key string, vals ...string) {
		s := key
		for _, v := range vals {
			s += sp() + v
		}
		add(s + end())
	}
	noise := func() {
		for k.U(4) == 0 {
			switch k.U(8) {
			case 0:
				add("Comment" + pick(k, "", " Copyright (c) 1999", " FontName Foo", " StartCharMetrics 3", " C 32 ; WX 3 ; N space ;"))
			case 1:
				add("")
			case 2:
				kv("Version", "001.00"+strconv.Itoa(k.U(10)))
			case 3:
				add("Notice Copyright " + k.genText())
			case 4:
				kv("EncodingScheme", pick(k, "AdobeStandardEncoding", "FontSpecific"))
			case 5:
				kv(pick(k, "StdHW", "StdVW", "VVector", "EscChar", "Characters", "MetricsSets", "MappingScheme"), strconv.Itoa(k.U(100)))
			case 6:
				kv(pick(k, "CharacterSet", "IsBaseFont", "IsFixedV", "XHeightX", "Ascenders", "weight"), "true", "12")
			case 7:
				add("StartBlock 3")
				add("C 65 ; WX 1000 ; N A ; B 1 2 3 4 ;")
				add("KPX A V -10")
				add("EndBlock")
			}
		}
	}
	words := func() string {
		s := pick(k, "Times", "Helvetica", "A", "Roman-X", "été", "Bold;") // one to four words
		for k.U(2) == 0 && len(s) < 40 {
			s += " " + pick(k, "New", "Roman", "Italic", "55", "Bold", "true", ";")
		}
		return s
	}
	num := func(d dec) string { return k.dec(d) }

	// the font-wide values
	var heads []func()
	maybe := func(f func()) {
		if k.U(4) != 0 {
			heads = append(heads, f)
		}
	}
	maybe(func() { m.fontName = pick(k, "Times-Roman", "F", "ABCDEF+X", "12"); kv("FontName", m.fontName) })
	maybe(func() { m.fullName = words(); kv("FullName", m.fullName) })
	maybe(func() { m.familyName = words(); kv("FamilyName", m.familyName) })
	maybe(func() { m.weight = words(); kv("Weight", m.weight) })
	maybe(func() {
		var s []string
		for i := range m.bbox {
			m.bbox[i] = k.decIn(-32768, 32767)
			s = append(s, num(m.bbox[i]))
		}
		kv("FontBBox", s...)
	})
	for _, key := range afmKeys {
		maybe(func() { m.vals[key] = k.decIn(-32768, 32767); kv(key, num(m.vals[key])) })
	}
	maybe(func() { m.angle = k.decIn(-180, 180); kv("ItalicAngle", num(m.angle)) })
	m.fixed = k.U(4) == 0
	if m.fixed || k.B() {
		heads = append(heads, func() { kv("IsFixedPitch", strconv.FormatBool(m.fixed)) })
	}
	if k.U(4) == 0 {
		m.hasCharWidth = true
		m.charWidth = [2]dec{k.decIn(1, 65535), k.decIn(-1000, 1000)}
		heads = append(heads, func() { kv("CharWidth", num(m.charWidth[0]), num(m.charWidth[1])) })
	}
	for i := range heads {
		j := i + k.U(len(heads)-i)
		heads[i], heads[j] = heads[j], heads[i]
	}
	// a few of them may stand after the glyphs
	late := 0
	if k.U(4) == 0 {
		late = k.U(len(heads) + 1)
	}

	add("StartFontMetrics" + pick(k, " 4.1", " 2.0", "", "\t3.0 "))
	noise()
	direction := k.U(6) == 0
	if direction {
		add("StartDirection 0")
	}
	for _, f := range heads[late:] {
		f()
		noise()
	}
	if direction {
		add("EndDirection")
	}

	// the glyphs
	n := k.U(12)
	if k.U(6) == 0 {
		n = k.U(300)
	}
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		g := afmGlyph{name: k.afmName(used), code: -1, width: k.decIn(0, 65535)}
		if k.U(3) != 0 {
			g.code = k.I(0, 255)
		}
		m.glyphs = append(m.glyphs, g)
	}
	if 0 < n || k.B() {
		kv("StartCharMetrics", strconv.Itoa(n))
		for i := range m.glyphs {
			g := &m.glyphs[i]
			item := "C" + sp() + strconv.Itoa(g.code)
			if 0 <= g.code && k.U(4) == 0 {
				item = "CH" + sp() + fmt.Sprintf(pick(k, "<%02X>", "<%02x>", "<%04X>"), g.code)
			}
			var items []string
			if m.fixed && m.hasCharWidth {
				g.width = m.charWidth[0]
				if k.B() {
					items = append(items, "WX"+sp()+num(g.width))
				}
			} else if k.U(10) == 0 {
				g.width = 0
			} else {
				items = append(items, "WX"+sp()+num(g.width))
			}
			if k.U(8) == 0 {
				items = append(items, "WY"+sp()+num(k.decIn(-3000, 3000)))
			}
			items = append(items, "N"+sp()+g.name)
			if k.U(8) != 0 {
				s := "B"
				for j := range g.bbox {
					g.bbox[j] = k.decIn(-32768, 32767)
					s += sp() + num(g.bbox[j])
				}
				items = append(items, s)
			}
			for k.U(6) == 0 {
				s, l := k.U(n), k.U(n)
				if _, ok := m.ligatures[[2]uint16{uint16(i), uint16(s)}]; !ok {
					m.ligatures[[2]uint16{uint16(i), uint16(s)}] = uint16(l)
					items = append(items, "L"+sp()+m.glyphs[s].name+sp()+m.glyphs[l].name)
				}
			}
			if k.U(3) == 0 {
				for a := range items {
					b := a + k.U(len(items)-a)
					items[a], items[b] = items[b], items[a]
				}
			}
			for _, s := range items {
				item += sp() + ";" + sp() + s
			}
			if k.U(6) != 0 {
				item += sp() + ";"
			}
			add(item + end())
		}
		add("EndCharMetrics" + end())
	}
	noise()
	for _, f := range heads[:late] {
		f()
		noise()
	}

	// kerning
	vertical := false
	if 0 < n && k.U(4) != 0 {
		add("StartKernData" + end())
		for s := k.U(4); 0 < s; s-- {
			if k.U(4) == 0 {
				c := k.U(3)
				kv("StartTrackKern", strconv.Itoa(c))
				for ; 0 < c; c-- {
					kv("TrackKern", strconv.Itoa(-c), "14", "0", "72", "1.5")
				}
				add("EndTrackKern")
				continue
			}
			dir := 0
			if k.U(4) == 0 {
				dir = 1
			}
			vertical = vertical || dir == 1
			c := k.U(2*n + 2)
			kv(pick(k, "StartKernPairs", "StartKernPairs0", "StartKernPairs0")[:14]+map[int]string{0: pick(k, "", "", "0"), 1: "1"}[dir], strconv.Itoa(c))
			for ; 0 < c; c-- {
				l, r := k.U(n), k.U(n)
				v := k.decIn(-32768, 32767)
				a, b := m.glyphs[l].name, m.glyphs[r].name
				_, dup := m.kern[[2]uint16{uint16(l), uint16(r)}]
				switch {
				case dup || k.U(12) == 0: // a vertical correction says nothing about horizontal kerning
					kv("KPY", a, b, num(v))
				case k.U(6) == 0:
					kv("KP", a, b, num(v), num(k.decIn(-1000, 1000)))
					if dir == 0 {
						m.kern[[2]uint16{uint16(l), uint16(r)}] = v
					}
				default:
					kv("KPX", a, b, num(v))
					if dir == 0 {
						m.kern[[2]uint16{uint16(l), uint16(r)}] = v
					}
				}
			}
			add("EndKernPairs" + end())
		}
		add("EndKernData" + end())
	}
	noise()
	if k.U(6) == 0 {
		add("StartComposites 2")
		add("CC Aacute 2 ; PCC A 0 0 ; PCC acute 139 212 ;")
		add("CC Adieresis 2 ; PCC A 0 0 ; PCC dieresis 139 212 ;")
		add("EndComposites")
	}
	add("EndFontMetrics")
	if k.U(6) == 0 {
		add("CapHeight 999")
		add("StartCharMetrics 1")
	}
	text := strings.Join(lines, eol)
	if k.U(4) != 0 {
		text += eol
	}
	k.classIf(0 < len(m.kern), "kerning")
	k.classIf(0 < len(m.ligatures), "ligatures")
	k.classIf(vertical, "vertical kerning")
	k.classIf(m.fixed && m.hasCharWidth, "fixed width")
	k.classIf(eol == "\r\n", "CRLF")
	k.classIf(n == 0, "no glyphs")
	return m, text
}

// readAFM is a plain reader for the layout of the bundled files.
func readAFM(text string) *afmModel {
	m := &afmModel{vals: map[string]dec{}, ligatures: map[[2]uint16]uint16{}, kern: map[[2]uint16]dec{}}
	num := func(s string) dec {
		f, err := strconv.ParseFloat(s, 64)
		if err != nil {
			panic(err)
		}
		if f < 0 {
			return -dec(-f*100 + 0.5)
		}
		return dec(f*100 + 0.5)
	}
	gids := map[string]uint16{}
	type lig struct{ a, b, c string }
	var ligs []lig
	for _, l := range strings.Split(text, "\n") {
		l = strings.TrimSpace(l)
		f := strings.Fields(l)
		if len(f) == 0 {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(l, f[0]))
		switch f[0] {
		case "FontName":
			m.fontName = rest
		case "FullName":
			m.fullName = rest
		case "FamilyName":
			m.familyName = rest
		case "Weight":
			m.weight = rest
		case "FontBBox":
			for i := range m.bbox {
				m.bbox[i] = num(f[1+i])
			}
		case "ItalicAngle":
			m.angle = num(f[1])
		case "IsFixedPitch":
			m.fixed = f[1] == "true"
		case "C":
			g := afmGlyph{}
			for _, it := range strings.Split(l, ";") {
				w := strings.Fields(it)
				if len(w) == 0 {
					continue
				}
				switch w[0] {
				case "C":
					g.code, _ = strconv.Atoi(w[1])
				case "WX":
					g.width = num(w[1])
				case "N":
					g.name = w[1]
				case "B":
					for i := range g.bbox {
						g.bbox[i] = num(w[1+i])
					}
				case "L":
					ligs = append(ligs, lig{g.name, w[1], w[2]})
				default:
					panic(w[0])
				}
			}
			gids[g.name] = uint16(len(m.glyphs))
			m.glyphs = append(m.glyphs, g)
		case "KPX":
			m.kern[[2]uint16{gids[f[1]], gids[f[2]]}] = num(f[3])
		default:
			if slices.Contains(afmKeys, f[0]) {
				m.vals[f[0]] = num(f[1])
			}
		}
	}
	for _, l := range ligs {
		m.ligatures[[2]uint16{gids[l.a], gids[l.b]}] = gids[l.c]
	}
	return m
}

func TestP37(t *testing.T) {
	run(t, "P37", "a file with at least one glyph; distinct by the text", func(c *Ctx) {
		c.check("file", c.n(12000, 200000), func(k *Case) {
			m, text := k.genAFM()
			k.artifact("font.afm", []byte(text))
			var a *font.AFM
			var err error
			b := []byte(text)
			k.guard("ParseAFM", func() { a, err = font.ParseAFM(b) })
			if err != nil {
				k.failf("the file is refused: %v", err)
			}
			if string(b) != text {
				k.failf("the text was modified")
			}
			k.guard("queries", func() { k.checkAFM(a, m) })
			if 0 < len(m.glyphs) {
				k.nontrivial(b, func() string { return text })
			}
		})
		// every name of the glyph list, in files that hold a share of them
		c.check("glyphlist", c.n(40, 200), func(k *Case) {
			m := &afmModel{vals: map[string]dec{}}
			var sb strings.Builder
			first, step := k.U(8), 8
			names := []string{".notdef"}
			for i := first; i < len(aglNames); i += step {
				names = append(names, aglNames[i])
			}
			fmt.Fprintf(&sb, "StartFontMetrics 4.1\nStartCharMetrics %d\n", len(names))
			for _, name := range names {
				m.glyphs = append(m.glyphs, afmGlyph{name: name, code: -1})
				fmt.Fprintf(&sb, "C -1 ; N %s ;\n", name)
			}
			sb.WriteString("EndCharMetrics\nEndFontMetrics\n")
			a, err := font.ParseAFM([]byte(sb.String()))
			if err != nil {
				k.failf("the file is refused: %v", err)
			}
			k.checkAFM(a, m)
			k.nontrivial([]byte{byte(first)}, func() string { return fmt.Sprintf("every 8th name from %d on", first) })
		})
		c.check("bundled", 1, func(k *Case) {
			files, _ := filepath.Glob("/repo/resources/pdfcorefonts/*.afm")
			if len(files) == 0 {
				k.c.bad("no bundled AFM files")
			}
			for _, fn := range files {
				b, err := os.ReadFile(fn)
				if err != nil {
					k.c.bad("%v", err)
					return
				}
				k.note("%s", fn)
				var a *font.AFM
				k.guard("ParseAFM", func() { a, err = font.ParseAFM(b) })
				if err != nil {
					k.failf("%s is refused: %v", filepath.Base(fn), err)
				}
				m := readAFM(string(b))
				k.guard("queries", func() { k.checkAFM(a, m) })
				k.nontrivial([]byte(fn), func() string { return filepath.Base(fn) })
			}
		})
	})
}
