package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"sort"
	"strings"
	"testing"

	"github.com/tdewolff/font"
)

// segBox is the box of all points of a path; with lone, points of contours without segments count too.
func segBox(segs []Seg, lone bool) (b [4]float64, any bool) {
	b = [4]float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	add := func(x, y float64) {
		any = true
		b[0], b[1], b[2], b[3] = math.Min(b[0], x), math.Min(b[1], y), math.Max(b[2], x), math.Max(b[3], y)
	}
	for i, s := range segs {
		if s.Op == 'M' && !lone && (i+1 == len(segs) || segs[i+1].Op == 'Z' || segs[i+1].Op == 'M') {
			continue
		}
		for j := 0; j < s.n(); j += 2 {
			add(s.P[j], s.P[j+1])
		}
	}
	return
}

func TestP19(t *testing.T) {
	run(t, "P19", "the font has a glyph whose box does not contain the origin or is fractional; distinct by font file", func(c *Ctx) {
		c.check("bounds", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{Wide: true, NoKern: true, NoVert: true, NoExtra: true})
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			inter := false
			for i, g := range f.Glyphs {
				var got [4]int
				k.guard("GlyphBounds", func() {
					x0, y0, x1, y1 := s.GlyphBounds(uint16(i))
					got = [4]int{int(x0), int(y0), int(x1), int(y1)}
				})
				if !f.CFF {
					if got != g.BBox {
						k.failf("glyph %d: bounds %v, the font declares %v", i, got, g.BBox)
					}
					inter = inter || 0 < g.BBox[0] || 0 < g.BBox[1] || g.BBox[2] < 0 || g.BBox[3] < 0
					continue
				}
				ok := false
				skip := false
				var first [4]int
				for _, lone := range []bool{false, true} {
					box, any := segBox(g.Ops.Path, lone)
					var want [4]int
					if any {
						want = [4]int{int(math.Floor(box[0])), int(math.Floor(box[1])), int(math.Ceil(box[2])), int(math.Ceil(box[3]))}
						for _, v := range want {
							skip = skip || v < -32768 || 32767 < v
						}
						inter = inter || 0 < want[0] || 0 < want[1] || want[2] < 0 || want[3] < 0 || box[0] != math.Floor(box[0])
					}
					if !lone {
						first = want
					}
					ok = ok || got == want
				}
				k.classIf(skip, "beyond 16 bits")
				if !ok && !skip {
					k.failf("glyph %d: bounds %v, its outline's box is %v", i, got, first)
				}
			}
			k.classIf(f.CFF, "CFF")
			if inter {
				k.nontrivial(b, f.String)
			}
		})
	})
}

func TestP20(t *testing.T) {
	run(t, "P20", "fewer full metrics than glyphs, or vertical metrics, or line metrics taken from OS/2; distinct by font file", func(c *Ctx) {
		c.check("metrics", c.n(2500, 30000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 20, BigN: true, HugeN: 1, NoKern: true, NoExtra: true, NoSubrs: true})
			if k.P(30) { // combinations around the selection's conditions
				f.Hhea.Asc, f.Hhea.Desc, f.Hhea.Gap = pick(k, 0, 1, -1, 900, 32767, -32768), pick(k, 0, -1, 1, -300, 32767, -32768), pick(k, 0, 1, -1, 200, 32767, -32768)
				put := func(o, v int) { binary.BigEndian.PutUint16(f.OS2.F[o:], uint16(v)) }
				if f.HasOS2 {
					put(62, k.U(65536)&^0x80|0x80*k.U(2))
					put(68, pick(k, 0, 1, -1, 800, 32767, -32768))
					put(70, pick(k, 0, 1, -1, -200, 32767, -32768))
					put(72, pick(k, 0, 1, -1, 90, 32767, -32768))
					put(74, pick(k, 0, 1, 900, 65535, 32768))
					put(76, pick(k, 0, 1, 250, 65535, 32768))
				}
			}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			n := f.N()
			k.guard("metrics", func() {
				if int(s.NumGlyphs()) != n || int(s.UnitsPerEm()) != f.UPM {
					k.failf("NumGlyphs=%d UnitsPerEm=%d, expected %d and %d", s.NumGlyphs(), s.UnitsPerEm(), n, f.UPM)
				}
				for i, g := range f.Glyphs {
					if got := s.GlyphAdvance(uint16(i)); int(got) != g.Adv {
						k.failf("glyph %d of %d: advance %d, expected %d (%d full metrics)", i, n, got, g.Adv, f.NHM)
					}
					if got := s.Hmtx.LeftSideBearing(uint16(i)); int(got) != g.LSB {
						k.failf("glyph %d of %d: left side bearing %d, expected %d (%d full metrics)", i, n, got, g.LSB, f.NHM)
					}
					want := f.UPM
					if 0 < f.NVM {
						want = g.VAdv
						if got := s.Vmtx.TopSideBearing(uint16(i)); int(got) != g.TSB {
							k.failf("glyph %d of %d: top side bearing %d, expected %d", i, n, got, g.TSB)
						}
					}
					if got := s.GlyphVerticalAdvance(uint16(i)); int(got) != want {
						k.failf("glyph %d of %d: vertical advance %d, expected %d", i, n, got, want)
					}
				}
			})
			// line metrics, by the documented selection in plain integers
			asc, desc, gap := max(0, f.Hhea.Asc), max(0, -f.Hhea.Desc), max(0, f.Hhea.Gap)
			src := "hhea"
			if f.HasOS2 {
				o := func(i int) int {
					if f.OS2.size() <= i {
						return 0
					}
					return int(int16(binary.BigEndian.Uint16(f.OS2.F[i:])))
				}
				u := func(i int) int { return o(i) & 0xFFFF }
				if o(62)&0x80 != 0 {
					if 0 < o(68) && o(70) < 0 {
						src = "typo"
						asc, desc, gap = o(68), -o(70), max(0, o(72))
					}
				} else if u(74) != 0 && u(76) != 0 {
					src = "win"
					ext := f.Hhea.Asc - f.Hhea.Desc + f.Hhea.Gap - (u(74) + u(76))
					asc, desc, gap = u(74), u(76), max(0, ext)
				}
			}
			k.class("line metrics from " + src)
			k.guard("VerticalMetrics", func() {
				a, d, g := s.VerticalMetrics()
				if int(a) != asc || int(d) != desc || int(g) != gap && gap <= 65535 {
					k.failf("VerticalMetrics = %d %d %d, expected %d %d %d from %s", a, d, g, asc, desc, gap, src)
				}
			})
			if f.NHM < n || 0 < f.NVM || src != "hhea" {
				k.nontrivial(b, func() string { return f.String() + " line metrics from " + src })
			}
		})
	})
}

func (k *Case) genKernRich(f *Font) {
	f.HasKern = true
	f.KernV1 = k.P(25)
	n := f.N()
	var all []KernPair
	count := k.I(1, 4)
	if k.P(3) {
		count = 0
	}
	for i := count; 0 < i; i-- {
		s := KernSub{Pairs: k.genPairs(n)}
		for _, p := range all { // pairs shared between subtables
			if k.P(25) {
				p.V = k.U(400) - 200
				dup := false
				for _, q := range s.Pairs {
					dup = dup || q.L == p.L && q.R == p.R
				}
				if !dup {
					s.Pairs = append(s.Pairs, p)
				}
			}
		}
		s.Unsorted = k.P(10)
		if !s.Unsorted {
			sortPairs(s.Pairs)
		}
		switch k.U(10) {
		case 0:
			s.Vertical = true
		case 1:
			s.Cross = true
		case 2, 3:
			s.Minimum = !f.KernV1
		case 4:
			s.Override = !f.KernV1
		case 5:
			s.Format = pick(k, 2, 1, 3)
			s.Pairs = nil
			s.Raw = k.blob(k.I(0, 40))
		case 6:
			s.Other = pick(k, 1, 2, 0x100)
		}
		if k.P(8) {
			s.Trailing = pick(k, 1, 2, 6, 7)
		}
		all = append(all, s.Pairs...)
		f.Kern = append(f.Kern, s)
	}
}

func TestP21(t *testing.T) {
	run(t, "P21", "at least one pair is listed in a horizontal subtable; distinct by font file", func(c *Ctx) {
		c.check("pairs", c.n(2500, 30000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 20, BigN: true, HugeN: 2, NoKern: true, NoVert: true, NoExtra: true, NoSubrs: true})
			k.genKernRich(f)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			want := map[[2]int]int{}
			listed := 0
			for _, st := range f.Kern {
				for _, p := range st.Pairs {
					want[[2]int{p.L, p.R}] = 0
					if !st.Vertical && !st.Cross && st.Other == 0 {
						listed++
					}
				}
				k.classIf(st.Vertical, "vertical")
				k.classIf(st.Cross, "cross-stream")
				k.classIf(st.Other != 0, "another kind with pairs")
				k.classIf(st.Minimum, "minimum")
				k.classIf(st.Override, "override")
				k.classIf(st.Format != 0, "other format")
				k.classIf(st.Unsorted, "unsorted")
				k.classIf(st.Trailing != 0, "trailing bytes")
			}
			k.classIf(f.KernV1, "version 1")
			for key := range want {
				want[key] = f.refKern(key[0], key[1])
			}
			for i := 0; i < 30; i++ {
				key := [2]int{k.U(f.N()), k.U(f.N())}
				if _, ok := want[key]; !ok {
					want[key] = 0
				}
			}
			keys := make([][2]int, 0, len(want))
			for key := range want {
				keys = append(keys, key, [2]int{key[1], key[0]})
			}
			sort.Slice(keys, func(i, j int) bool {
				return keys[i][0] < keys[j][0] || keys[i][0] == keys[j][0] && keys[i][1] < keys[j][1]
			})
			k.guard("Kerning", func() {
				for _, key := range keys {
					w := want[key] // 0 if unlisted
					if got := s.Kerning(uint16(key[0]), uint16(key[1])); int(got) != w {
						k.failf("Kerning(%d,%d) = %d, expected %d; subtables %+v version 1: %v", key[0], key[1], got, w, f.Kern, f.KernV1)
					}
				}
			})
			if 0 < listed {
				k.nontrivial(b, func() string { return fmt.Sprintf("%+v", f.Kern) })
			}
		})
		c.check("large", c.n(12, 100), func(k *Case) {
			// a last subtable with more pairs than its 16-bit length can express
			f := k.genFont(FontOpt{MinN: 200, MaxN: 5, Flavour: 1, NoKern: true, NoVert: true, NoExtra: true})
			np := pick(k, 10919, 10920, 10921, 10922, 10923, 11000, 21845, 30000)
			st := KernSub{}
			n := f.N()
			r := k.rng()
			for i := 0; len(st.Pairs) < np; i++ {
				st.Pairs = append(st.Pairs, KernPair{i / n, i % n, r.n(2000) - 1000})
			}
			f.HasKern = true
			f.Kern = []KernSub{{Pairs: k.genPairs(n)}, st}
			sortPairs(f.Kern[0].Pairs)
			b := f.bytes(k)
			s := k.mustParse(b, "font")
			m := map[[2]int]int{}
			for _, p := range f.Kern[0].Pairs {
				m[[2]int{p.L, p.R}] += p.V
			}
			for _, p := range st.Pairs {
				m[[2]int{p.L, p.R}] += p.V
			}
			for l := 0; l < n; l++ {
				for r := 0; r < n; r += 1 + l%3 {
					if got := s.Kerning(uint16(l), uint16(r)); int(got) != m[[2]int{l, r}] {
						k.failf("Kerning(%d,%d) = %d, expected %d (%d pairs)", l, r, got, m[[2]int{l, r}], np)
					}
				}
			}
			k.nontrivial(b, func() string { return fmt.Sprintf("%d pairs", np) })
		})
	})
}

// wantName is the glyph name the model defines.
func (f *Font) wantName(i int) string {
	if !f.CFF && f.PostV == 3 {
		return ""
	}
	return f.Glyphs[i].Name
}

// checkNames checks names and name lookups against a list of names.
func (k *Case) checkNames(s *font.SFNT, names []string, what string) {
	k.Helper()
	k.guard("names of "+what, func() {
		has := map[string]bool{}
		for i, want := range names {
			if got := s.GlyphName(uint16(i)); got != want {
				k.failf("%s: GlyphName(%d) = %q, expected %q", what, i, got, want)
			}
			has[want] = true
		}
		for i, name := range names {
			if 1000 < len(names) && strings.HasPrefix(name, "custom") && i%211 != 0 && i != len(names)-1 {
				continue // every look-up takes long
			}
			g := s.FindGlyphName(name)
			if len(names) <= int(g) || names[g] != name {
				if name == "" && g == 0 {
					continue // "no name" rather than a glyph named ""
				}
				k.failf("%s: FindGlyphName(%q) = %d, which is not a glyph of that name", what, name, g)
			}
		}
		for _, name := range append([]string{"", "nope", ".notdef", "space", "A", "zcaron", "no.such.glyph", "A\x00"}, mutNames(names)...) {
			if !has[name] {
				if g := s.FindGlyphName(name); g != 0 {
					k.failf("%s: FindGlyphName(%q) = %d, but no glyph has that name", what, name, g)
				}
			}
		}
	})
}

func mutNames(names []string) []string {
	var out []string
	for i, n := range names {
		if 12 < i {
			break
		}
		out = append(out, n+"x", " "+n)
		if 1 < len(n) {
			out = append(out, n[:len(n)-1])
		}
	}
	return out
}

func TestP22(t *testing.T) {
	run(t, "P22", "the font stores glyph names, some of them custom; distinct by font file", func(c *Ctx) {
		c.check("names", c.n(2500, 30000), func(k *Case) {
			o := FontOpt{MaxN: 25, BigN: true, HugeN: 1, NoCID: true, NoKern: true, NoVert: true, NoExtra: true, NoSubrs: true}
			if k.P(4) {
				o.Flavour, o.MinN, o.MaxN = 1, 258, 1
			}
			f := k.genFont(o)
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			var names []string
			custom := false
			std := macIndex
			if f.CFF {
				std = cffStdIndex
			}
			for i := range f.Glyphs {
				names = append(names, f.wantName(i))
				_, isStd := std[names[i]]
				custom = custom || !isStd && names[i] != ""
			}
			k.class("CFF %v post %d", f.CFF, f.PostV)
			k.checkNames(s, names, "the font")
			if custom {
				k.nontrivial(b, func() string { return fmt.Sprintf("%.2000q", names[:min(300, len(names))]) })
			}
		})
	})
}

func flags16(v int) (f [16]bool) {
	for i := range f {
		f[i] = v>>i&1 != 0
	}
	return
}

func TestP23(t *testing.T) {
	run(t, "P23", "the font has an OS/2 table or name records; distinct by font file", func(c *Ctx) {
		c.check("fields", c.n(2500, 30000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 6, NoKern: true, NoExtra: true, NoSubrs: true})
			if k.P(10) { // dates far away
				f.Head.Created, f.Head.Modified = int64(genU64.Draw(k.T, "t")>>uint(2+k.U(40))), int64(genU64.Draw(k.T, "t")>>uint(2+k.U(40)))
			}
			if k.P(3) { // storage near and beyond 16 bits
				for tot := 0; tot < 65000 && len(f.Names) < 40; {
					raw := k.blob(min(k.U(40000), 65535-min(65535, tot)))
					f.Names = append(f.Names, NameRec{Platform: 2, Encoding: 1, Language: 7, ID: 300 + len(f.Names), Raw: raw})
					tot += len(raw)
				}
				k.class("large name storage")
				f.NameV1 = false
			}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			eq := func(what string, got, want any) {
				k.Helper()
				if fmt.Sprint(got) != fmt.Sprint(want) {
					k.failf("%s is %v, the font stores %v", what, got, want)
				}
			}
			h := &f.Head
			eq("version", s.Version, f.version())
			eq("IsCFF", s.IsCFF, f.CFF)
			eq("IsTrueType", s.IsTrueType, !f.CFF)
			eq("head.FontRevision", s.Head.FontRevision, h.Revision)
			eq("head.Flags", s.Head.Flags, flags16(h.Flags))
			eq("head.UnitsPerEm", s.Head.UnitsPerEm, f.UPM)
			eq("head.Created", [2]int64{s.Head.Created.Unix(), int64(s.Head.Created.Nanosecond())}, [2]int64{h.Created - 2082844800, 0})
			eq("head.Modified", [2]int64{s.Head.Modified.Unix(), int64(s.Head.Modified.Nanosecond())}, [2]int64{h.Modified - 2082844800, 0})
			eq("head box", []int16{s.Head.XMin, s.Head.YMin, s.Head.XMax, s.Head.YMax}, h.BBox)
			eq("head.MacStyle", s.Head.MacStyle, flags16(h.MacStyle))
			eq("head.LowestRecPPEM", s.Head.LowestRecPPEM, h.Lowest)
			eq("head.FontDirectionHint", s.Head.FontDirectionHint, h.Direction)
			eq("head.IndexToLocFormat", s.Head.IndexToLocFormat, f.LocaFmt)
			eq("head.GlyphDataFormat", s.Head.GlyphDataFormat, h.GlyphDataFmt)
			x := s.Hhea
			eq("hhea", []any{x.Ascender, x.Descender, x.LineGap, x.AdvanceWidthMax, x.MinLeftSideBearing, x.MinRightSideBearing, x.XMaxExtent, x.CaretSlopeRise, x.CaretSlopeRun, x.CaretOffset, x.MetricDataFormat, x.NumberOfHMetrics},
				[]any{f.Hhea.Asc, f.Hhea.Desc, f.Hhea.Gap, f.Hhea.AdvMax, f.Hhea.MinL, f.Hhea.MinR, f.Hhea.Ext, f.Hhea.Rise, f.Hhea.Run, f.Hhea.Caret, f.Hhea.Fmt, f.NHM})
			if 0 < f.NVM {
				x := s.Vhea
				eq("vhea", []any{x.Ascender, x.Descender, x.LineGap, x.AdvanceHeightMax, x.MinTopSideBearing, x.MinBottomSideBearing, x.YMaxExtent, x.CaretSlopeRise, x.CaretSlopeRun, x.CaretOffset, x.MetricDataFormat, x.NumberOfVMetrics},
					[]any{f.Vhea.Asc, f.Vhea.Desc, f.Vhea.Gap, f.Vhea.AdvMax, f.Vhea.MinL, f.Vhea.MinR, f.Vhea.Ext, f.Vhea.Rise, f.Vhea.Run, f.Vhea.Caret, f.Vhea.Fmt, f.NVM})
			} else if s.Vhea != nil || s.Vmtx != nil {
				k.failf("vertical metrics appear from nowhere")
			}
			m := s.Maxp
			eq("maxp.NumGlyphs", m.NumGlyphs, f.N())
			if !f.CFF {
				eq("maxp", []any{m.Version, m.MaxPoints, m.MaxContours, m.MaxCompositePoints, m.MaxCompositeContours, m.MaxZones, m.MaxTwilightPoints, m.MaxStorage, m.MaxFunctionDefs, m.MaxInstructionDefs, m.MaxStackElements, m.MaxSizeOfInstructions, m.MaxComponentElements, m.MaxComponentDepth},
					append([]any{0x10000}, anys(f.Maxp[:])...))
			} else {
				eq("maxp.Version", m.Version, 0x5000)
			}
			p := s.Post
			eq("post", []any{p.UnderlinePosition, p.UnderlineThickness, p.IsFixedPitch, p.MinMemType42, p.MaxMemType42, p.MinMemType1, p.MaxMemType1},
				[]any{f.Post.UPos, f.Post.UThick, f.Post.Fixed, f.Post.M42a, f.Post.M42b, f.Post.M1a, f.Post.M1b})
			eq("post.ItalicAngle", p.ItalicAngle, float64(f.Post.Angle)/65536)
			k.checkOS2(s, f)
			// names
			if len(s.Name.NameRecord) != len(f.Names) {
				k.failf("%d name records, the font has %d", len(s.Name.NameRecord), len(f.Names))
			}
			byID := map[int][]int{}
			k.guard("name records", func() {
				for i, r := range s.Name.NameRecord {
					w := f.Names[i]
					if int(r.Platform) != w.Platform || int(r.Encoding) != w.Encoding || int(r.Language) != w.Language || int(r.Name) != w.ID || !bytes.Equal(r.Value, w.Raw) {
						k.failf("name record %d is %d %d %#x %d % x, the font has %+v", i, r.Platform, r.Encoding, r.Language, r.Name, r.Value, w)
					}
					txt := r.String()
					if w.Known && txt != w.Text {
						k.failf("name record %d (%d %d) reads %q, expected %q", i, r.Platform, r.Encoding, txt, w.Text)
					}
					byID[w.ID] = append(byID[w.ID], i)
					k.class("name platform %d", min(w.Platform, 5))
				}
				for _, id := range []int{0, 1, 2, 4, 6, 16, 17, 300, 301} {
					got := s.Name.Get(font.NameID(id))
					if len(got) != len(byID[id]) {
						k.failf("Name.Get(%d) has %d records, expected %d", id, len(got), len(byID[id]))
					}
					for j, r := range got {
						if w := f.Names[byID[id][j]]; !bytes.Equal(r.Value, w.Raw) || int(r.Platform) != w.Platform {
							k.failf("Name.Get(%d)[%d] is not record %d", id, j, byID[id][j])
						}
					}
				}
				if f.NameV1 {
					for i, tg := range s.Name.LangTag {
						if i < len(f.LangTag) && tg.String() != f.LangTag[i] {
							k.failf("language tag %d reads %q, expected %q", i, tg.String(), f.LangTag[i])
						}
					}
					eq("number of language tags", len(s.Name.LangTag), len(f.LangTag))
				}
			})
			if f.HasOS2 || 0 < len(f.Names) {
				k.nontrivial(b, func() string { return fmt.Sprintf("OS/2 %v v%d, %d names", f.HasOS2, f.OS2.Version, len(f.Names)) })
			}
		})
	})
}

func anys(v []int) []any {
	var out []any
	for _, x := range v {
		out = append(out, x)
	}
	return out
}

func (k *Case) checkOS2(s *font.SFNT, f *Font) {
	if !f.HasOS2 {
		if s.OS2 != nil {
			k.failf("OS/2 values appear from nowhere")
		}
		return
	}
	o := s.OS2
	b := append([]byte{}, f.OS2.F...)
	for i := f.OS2.size(); i < len(b); i++ {
		b[i] = 0
	}
	binary.BigEndian.PutUint16(b, uint16(f.OS2.Version))
	k.class("OS/2 version %d length %d", f.OS2.Version, f.OS2.size())
	u := func(i int) any { return binary.BigEndian.Uint16(b[i:]) }
	g := func(i int) any { return int16(binary.BigEndian.Uint16(b[i:])) }
	l := func(i int) any { return binary.BigEndian.Uint32(b[i:]) }
	want := []any{u(0), g(2), u(4), u(6), u(8), g(10), g(12), g(14), g(16), g(18), g(20), g(22), g(24), g(26), g(28), g(30),
		b[32], b[33], b[34], b[35], b[36], b[37], b[38], b[39], b[40], b[41], l(42), l(46), l(50), l(54), b[58:62], u(62), u(64), u(66),
		g(68), g(70), g(72), u(74), u(76), l(78), l(82)}
	got := []any{o.Version, o.XAvgCharWidth, o.UsWeightClass, o.UsWidthClass, o.FsType, o.YSubscriptXSize, o.YSubscriptYSize, o.YSubscriptXOffset, o.YSubscriptYOffset, o.YSuperscriptXSize, o.YSuperscriptYSize, o.YSuperscriptXOffset, o.YSuperscriptYOffset, o.YStrikeoutSize, o.YStrikeoutPosition, o.SFamilyClass,
		o.BFamilyType, o.BSerifStyle, o.BWeight, o.BProportion, o.BContrast, o.BStrokeVariation, o.BArmStyle, o.BLetterform, o.BMidline, o.BXHeight, o.UlUnicodeRange1, o.UlUnicodeRange2, o.UlUnicodeRange3, o.UlUnicodeRange4, o.AchVendID[:], o.FsSelection, o.UsFirstCharIndex, o.UsLastCharIndex,
		o.STypoAscender, o.STypoDescender, o.STypoLineGap, o.UsWinAscent, o.UsWinDescent, o.UlCodePageRange1, o.UlCodePageRange2}
	if 2 <= f.OS2.Version {
		want = append(want, g(86), g(88))
		got = append(got, o.SxHeight, o.SCapHeight)
	}
	want = append(want, u(90), u(92), u(94), u(96), u(98))
	got = append(got, o.UsDefaultChar, o.UsBreakChar, o.UsMaxContent, o.UsLowerOpticalPointSize, o.UsUpperOpticalPointSize)
	for i := range want {
		if fmt.Sprint(got[i]) != fmt.Sprint(want[i]) {
			k.failf("OS/2 value %d is %v, the table (version %d) stores %v", i, got[i], f.OS2.Version, want[i])
		}
	}
}
