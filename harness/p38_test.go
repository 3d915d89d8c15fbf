package harness

// P38: fonts opened with the freetype and x/image packages, converted back to SFNT bytes.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"slices"
	"testing"

	"github.com/golang/freetype/truetype"
	"github.com/tdewolff/font"
	"golang.org/x/image/font/sfnt"
	"golang.org/x/image/math/fixed"
)

// looseSFNT lays the tables out without alignment, padding or with junk between them, as the
// freetype package accepts them.
func (k *Case) looseSFNT(version string, tables map[string][]byte) []byte {
	tags := sortedTags(tables)
	w := &W{}
	w.str(version)
	w.u16(len(tags))
	w.u16(0)
	w.u32(0)
	offs := map[string]int{}
	body := &W{}
	base := 12 + 16*len(tags)
	gap := k.U(3)
	for _, t := range k.shuffle(tags) {
		switch gap {
		case 1:
			for (base+len(body.b))%4 != 0 {
				body.u8(0xAA)
			}
		case 2:
			body.bytes(k.blob(k.U(4)))
		}
		offs[t] = base + len(body.b)
		body.bytes(tables[t])
	}
	if k.B() {
		body.bytes(k.blob(k.U(9)))
	}
	for _, t := range tags {
		w.str(t)
		w.u32(0x12345678)
		w.u32(uint32(offs[t]))
		w.u32(uint32(len(tables[t])))
	}
	w.bytes(body.b)
	return w.b
}

var freetypeTags = []string{"OS/2", "cmap", "cvt ", "fpgm", "glyf", "hdmx", "head", "hhea", "hmtx", "kern", "loca", "maxp", "name", "prep"}

// ftState is what the freetype font says about itself.
func ftState(f *truetype.Font, n int) string {
	var sb bytes.Buffer
	fmt.Fprint(&sb, f.FUnitsPerEm(), f.Bounds(1000))
	for _, r := range obsRunes {
		fmt.Fprint(&sb, f.Index(r), " ")
	}
	for i := 0; i < n; i++ {
		fmt.Fprint(&sb, f.HMetric(fixed.I(7), truetype.Index(i)), f.Kern(fixed.I(7), 0, truetype.Index(i)))
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprint(&sb, "panic")
				}
			}()
			var g truetype.GlyphBuf
			err := g.Load(f, fixed.I(7), truetype.Index(i), 0)
			fmt.Fprint(&sb, err, g.Points, g.Ends)
		}()
	}
	fmt.Fprint(&sb, f.Name(1), f.Name(4))
	return sb.String()
}

func xiState(f *sfnt.Font, n int) string {
	var sb bytes.Buffer
	var buf sfnt.Buffer
	fmt.Fprint(&sb, f.NumGlyphs(), f.UnitsPerEm())
	for _, r := range obsRunes {
		g, err := f.GlyphIndex(&buf, r)
		fmt.Fprint(&sb, g, err, " ")
	}
	for i := 0; i < n; i++ {
		func() {
			defer func() {
				if r := recover(); r != nil {
					fmt.Fprint(&sb, "panic")
				}
			}()
			segs, err := f.LoadGlyph(&buf, sfnt.GlyphIndex(i), fixed.I(7), nil)
			fmt.Fprint(&sb, segs, err)
			a, err := f.GlyphAdvance(&buf, sfnt.GlyphIndex(i), fixed.I(7), 0)
			fmt.Fprint(&sb, a, err)
		}()
	}
	return sb.String()
}

func TestP38(t *testing.T) {
	run(t, "P38", "a font the other package accepts; distinct by its bytes", func(c *Ctx) {
		c.check("freetype", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{Flavour: 1, BigN: true})
			tables := f.encTables(k)
			for _, tag := range []string{"cvt ", "fpgm", "prep", "hdmx"} {
				if k.U(3) == 0 {
					tables[tag] = k.blob(1 + k.U(20))
				}
			}
			loose := k.U(3) == 0

			var b []byte
			switch {
			case loose:
				b = k.looseSFNT(f.version(), tables)
			default:
				var order []string
				if k.B() {
					order = k.shuffle(sortedTags(tables))
				}
				b = buildSFNT(f.version(), tables, order)
			}
			k.artifact("font", b)
			src := bytes.Clone(b)
			if k.B() { // room behind the bytes
				src = append(make([]byte, 0, len(b)+16), b...)
			}
			ft, err := truetype.Parse(src)
			if err != nil {
				k.class("refused: %.40v", err)
				return
			}
			n := f.N()
			before := ftState(ft, n)
			var out []byte
			k.guard("FromGoFreetype", func() { out = font.FromGoFreetype(ft) })
			if !bytes.Equal(src, b) {
				k.failf("the bytes of the source font were modified")
			}
			if ftState(ft, n) != before {
				k.failf("the source font answers differently after the conversion")
			}
			k.artifact("converted", out)
			d, err := refDirectory(out)
			if err != nil {
				k.failf("the result is not well-formed: %v", err)
			}
			if d.version != "\x00\x01\x00\x00" {
				k.failf("the result has version %q", d.version)
			}
			got := d.tables()
			for _, tag := range freetypeTags {
				want := bytes.Clone(tables[tag])
				have := got[tag]
				if tag == "head" {
					have = bytes.Clone(have)
					for _, x := range [][]byte{want, have} {
						if 12 <= len(x) {
							copy(x[8:12], "\x00\x00\x00\x00")
						}
					}
				}
				if !bytes.Equal(want, have) {
					k.failf("table %q has %d bytes and is not the %d bytes of the source", tag, len(have), len(want))
				}
			}
			for tag := range got {
				if !slices.Contains(freetypeTags, tag) && tag != "post" {
					if tag != "vmtx" && tag != "vhea" || !bytes.Equal(got[tag], tables[tag]) {
						k.failf("unexpected table %q", tag)
					}
				}
			}
			if p := got["post"]; len(p) != 32 || binary.BigEndian.Uint32(p) != 0x00030000 {
				k.failf("the post table % x is no version 3 table", p)
			}
			// again, and after the first result was overwritten
			first := bytes.Clone(out)
			for i := range out {
				out[i] = 0xEE
			}
			if k.B() {
				k.guard("FromGoFreetype", func() { out = font.FromGoFreetype(ft) })
				if !bytes.Equal(out, first) {
					k.failf("a second conversion gives other bytes")
				}
			}
			if !bytes.Equal(src, b) || ftState(ft, n) != before {
				k.failf("the source font changed when the result was overwritten")
			}
			ft2, err := truetype.Parse(first)
			if err != nil {
				k.failf("the freetype package refuses the result: %v", err)
			}
			if ftState(ft2, n) != before {
				k.failf("the freetype package reads the result differently")
			}
			k.classIf(loose, "loose layout")
			k.classIf(tables["vmtx"] != nil, "vertical metrics")
			if len(tables["glyf"]) == 0 { // no glyph has an outline, and an empty table is not kept
				k.class("empty glyf")
				return
			}
			// as this package reads both
			ref := b
			if loose {
				ref = buildSFNT(f.version(), tables, nil)
			}
			a, p := k.mustParse(ref, "font"), k.mustParse(first, "converted")
			var x, y *Obs
			k.guard("queries", func() { x, y = observe(a, min(n, 40)), observe(p, min(n, 40)) })
			for _, o := range []*Obs{x, y} {
				for i := range o.glyphs {
					o.glyphs[i].name, o.glyphs[i].find = "", 0 // the names are not kept
					if tables["vmtx"] != nil {
						o.glyphs[i].vadv = 0
					}
				}
			}
			k.sameObs(x, y, "font and converted font")
			k.nontrivial(b, func() string { return fmt.Sprintf("%d glyphs, %d tables, loose %v", n, len(tables), loose) })
		})
		c.check("ximage", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{BigN: true})
			b := f.bytes(k)
			k.artifact("font", b)
			src := bytes.Clone(b)
			reader := k.B()
			var xf *sfnt.Font
			var err error
			func() {
				defer func() {
					if r := recover(); r != nil {
						err = fmt.Errorf("panic in x/image")
					}
				}()
				if reader {
					xf, err = sfnt.ParseReaderAt(bytes.NewReader(src))
				} else {
					xf, err = sfnt.Parse(src)
				}
			}()
			if err != nil {
				k.class("refused: %.40v", err)
				return
			}
			n := f.N()
			before := xiState(xf, min(n, 20))
			var out []byte
			for i := 0; i < 1+k.U(2); i++ {
				k.guard("FromGoSFNT", func() { out = font.FromGoSFNT(xf) })
				if !bytes.Equal(src, b) {
					k.failf("the bytes of the source font were modified")
				}
				if xiState(xf, min(n, 20)) != before {
					k.failf("the source font answers differently after the conversion")
				}
				d, err := refDirectory(out)
				if err != nil {
					k.failf("the result is not well-formed: %v", err)
				}
				if d.version != f.version() {
					k.failf("the result has version %q", d.version)
				}
				got := d.tables()
				if len(got) != len(f.tables) {
					k.failf("the result has %d tables, expected %d", len(got), len(f.tables))
				}
				for tag, w := range f.tables {
					if !bytes.Equal(got[tag], w) {
						k.failf("table %q differs", tag)
					}
				}
			}
			a, p := k.mustParse(b, "font"), k.mustParse(out, "converted")
			var x, y *Obs
			k.guard("queries", func() { x, y = observe(a, min(n, 20)), observe(p, min(n, 20)) })
			k.sameObs(x, y, "font and converted font")
			k.classIf(reader, "opened from a reader")
			k.classIf(f.CFF, "CFF")
			k.nontrivial(b, func() string {
				return fmt.Sprintf("%d glyphs, %d tables, CFF %v, reader %v", n, len(f.tables), f.CFF, reader)
			})
		})
	})
}
