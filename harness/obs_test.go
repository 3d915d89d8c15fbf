package harness

import (
	"fmt"
	"io"
	"math"

	"github.com/tdewolff/font"
)

// drawGlyph draws one glyph and returns its path.
func drawGlyph(s *font.SFNT, gid int, x, y, f float64) ([]Seg, error) {
	var p pathRec
	err := s.GlyphPath(&p, uint16(gid), 0, x, y, f, font.NoHinting)
	return p.segs, err
}

func pathTol(x, y, f, bound float64) float64 {
	return math.Abs(f)*bound + 1e-9*(math.Abs(x)+math.Abs(y)+math.Abs(f)*70000)
}

// mustParse parses a font the harness built; failure is a violation (valid fonts must parse).
func (k *Case) mustParse(b []byte, what string) *font.SFNT {
	k.Helper()
	var s *font.SFNT
	var err error
	k.guard("ParseSFNT("+what+")", func() { s, err = font.ParseSFNT(b, 0) })
	if err != nil {
		k.artifact(what, b)
		k.failf("%s: a valid font is rejected: %v", what, err)
	}
	return s
}

var errEOF = io.EOF

// Obs is everything the queries of a font say about its glyphs.
type Obs struct {
	n      int
	glyphs []glyphObs
	runes  map[rune]uint16
	inv    []string
	vm     [3]uint16
	kern   map[[2]int]int16
	err    string
}

type glyphObs struct {
	path   []Seg
	err    string
	adv    uint16
	vadv   uint16
	lsb    int16
	box    [4]int16
	name   string
	find   uint16
	panics string
}

var obsRunes = func() (rs []rune) {
	for r := rune(0); r < 0x180; r++ {
		rs = append(rs, r)
	}
	return append(rs, 0x20AC, 0x2013, 0x4E00, 0xE000, 0xF000, 0xF020, 0xFFFD, 0xFFFE, 0xFFFF, 0x10000, 0x1F600, 0x10FFFF)
}()

// observe runs every query on the first n glyphs. Each is guarded, so that two fonts that fail the
// same way are alike.
func observe(s *font.SFNT, n int) *Obs {
	o := &Obs{n: n, runes: map[rune]uint16{}, kern: map[[2]int]int16{}}
	for i := 0; i < n; i++ {
		g := glyphObs{}
		func() {
			defer func() {
				if r := recover(); r != nil {
					g.panics = fmt.Sprint(r)
				}
			}()
			id := uint16(i)
			var err error
			if g.path, err = drawGlyph(s, i, 0, 0, 1); err != nil {
				g.err = err.Error()
				g.path = nil
			}
			g.name = s.GlyphName(id)
			g.find = s.FindGlyphName(g.name)
			g.box[0], g.box[1], g.box[2], g.box[3] = s.GlyphBounds(id)
			o.inv = append(o.inv, fmt.Sprint(s.GlyphToUnicode(id)))
			g.adv = s.GlyphAdvance(id)
			g.vadv = s.GlyphVerticalAdvance(id)
			g.lsb = s.Hmtx.LeftSideBearing(id)
		}()
		o.glyphs = append(o.glyphs, g)
	}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.err = fmt.Sprint(r)
			}
		}()
		for _, r := range obsRunes {
			o.runes[r] = s.GlyphIndex(r)
		}
		o.vm[0], o.vm[1], o.vm[2] = s.VerticalMetrics()
		for i := 0; i < n && i < 12; i++ {
			for j := 0; j < n && j < 12; j++ {
				o.kern[[2]int{i, j}] = s.Kerning(uint16(i), uint16(j))
			}
		}
	}()
	return o
}

func (o *Obs) diff(p *Obs) string {
	for i := range o.glyphs {
		a, b := o.glyphs[i], p.glyphs[i]
		if len(a.path) != len(b.path) {
			return fmt.Sprintf("glyph %d draws %d segments or %d", i, len(a.path), len(b.path))
		}
		for j := range a.path {
			if a.path[j] != b.path[j] {
				return fmt.Sprintf("glyph %d segment %d is %v or %v", i, j, a.path[j], b.path[j])
			}
		}
		a.path, b.path = nil, nil
		if x, y := fmt.Sprintf("%+v", a), fmt.Sprintf("%+v", b); x != y {
			return fmt.Sprintf("glyph %d is %s or %s", i, x, y)
		}
	}
	if x, y := fmt.Sprint(o.inv), fmt.Sprint(p.inv); x != y {
		return fmt.Sprintf("runes per glyph %.300s or %.300s", x, y)
	}
	for _, r := range obsRunes {
		if o.runes[r] != p.runes[r] {
			return fmt.Sprintf("rune %U has glyph %d or %d", r, o.runes[r], p.runes[r])
		}
	}
	if o.vm != p.vm || o.err != p.err {
		return fmt.Sprintf("line metrics %v %s or %v %s", o.vm, o.err, p.vm, p.err)
	}
	if x, y := fmt.Sprint(o.kern), fmt.Sprint(p.kern); x != y {
		return fmt.Sprintf("kerning %.300s or %.300s", x, y)
	}
	return ""
}

func (k *Case) sameObs(a, b *Obs, what string) {
	k.Helper()
	if d := a.diff(b); d != "" {
		k.failf("%s: queries differ: %s", what, d)
	}
}
