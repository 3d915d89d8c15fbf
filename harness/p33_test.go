package harness

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/tdewolff/font"
)

// A query of a shared font; its answer is a string so that answers compare.
type query struct {
	name string
	f    func(s *font.SFNT) string
}

func digest(b []byte) string {
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d bytes, %x", len(b), h.Sum64())
}

func tablesDigest(s *font.SFNT) string {
	var sb strings.Builder
	for _, tag := range sortedTags(s.Tables) {
		fmt.Fprintf(&sb, "%s %s;", hex.EncodeToString([]byte(tag)), digest(s.Tables[tag]))
	}
	return sb.String()
}

// genQuery draws a read-only operation on a font of n glyphs.
func (k *Case) genQuery(f *Font, b []byte, kinds []int) query {
	n := f.N()
	g := uint16(k.U(n + 1)) // sometimes one too many
	if int(g) == n && k.P(80) {
		g = 0
	}
	in := g
	if int(in) >= n {
		in = uint16(n - 1)
	}
	switch kind := kinds[k.U(len(kinds))]; kind {
	case 0:
		r := k.someRune(f)
		return query{fmt.Sprintf("GlyphIndex(%U)", r), func(s *font.SFNT) string { return fmt.Sprint(s.GlyphIndex(r)) }}
	case 1, 2:
		return query{fmt.Sprintf("GlyphToUnicode(%d)", g), func(s *font.SFNT) string { return fmt.Sprintf("%U", s.GlyphToUnicode(g)) }}
	case 3:
		return query{fmt.Sprintf("GlyphName(%d)", in), func(s *font.SFNT) string { return s.GlyphName(in) }}
	case 4, 5:
		name := f.wantName(int(in))
		if k.P(30) {
			name = pick(k, "A", "nope", "space", ".notdef")
		}
		return query{fmt.Sprintf("FindGlyphName(%q)", name), func(s *font.SFNT) string { return fmt.Sprint(s.FindGlyphName(name)) }}
	case 6:
		return query{fmt.Sprintf("GlyphPath(%d)", in), func(s *font.SFNT) string {
			p, err := drawGlyph(s, int(in), 0, 0, 1)
			return fmt.Sprint(p, err)
		}}
	case 7:
		return query{fmt.Sprintf("GlyphBounds(%d)", in), func(s *font.SFNT) string { return fmt.Sprint(s.GlyphBounds(in)) }}
	case 8:
		return query{fmt.Sprintf("advances(%d)", in), func(s *font.SFNT) string {
			return fmt.Sprint(s.GlyphAdvance(in), s.GlyphVerticalAdvance(in), s.Hmtx.LeftSideBearing(in))
		}}
	case 9:
		r := uint16(k.U(n))
		return query{fmt.Sprintf("Kerning(%d, %d)", in, r), func(s *font.SFNT) string { return fmt.Sprint(s.Kerning(in, r)) }}
	case 10:
		return query{"font-wide", func(s *font.SFNT) string {
			a, d, l := s.VerticalMetrics()
			return fmt.Sprint(s.NumGlyphs(), s.UnitsPerEm(), a, d, l, s.Head.UnitsPerEm)
		}}
	case 11:
		return query{"names", func(s *font.SFNT) string {
			if s.Name == nil {
				return ""
			}
			var sb strings.Builder
			for id := font.NameID(0); id < 7; id++ {
				for _, r := range s.Name.Get(id) {
					fmt.Fprintf(&sb, "%q ", r.String())
				}
			}
			return sb.String()
		}}
	case 12:
		list := k.genList(n, f.CFF)
		opt := pick(k, "all", "min", "pdf")
		return query{fmt.Sprintf("Subset(%v, %s)", list, opt), func(s *font.SFNT) string {
			sub, err := s.Subset(append([]uint16{}, list...), font.SubsetOptions{Tables: []string{opt}})
			if err != nil {
				return err.Error()
			}
			return tablesDigest(sub)
		}}
	case 13:
		return query{"Write", func(s *font.SFNT) string {
			w := s.Write()
			d, err := refDirectory(w)
			if err != nil {
				return err.Error()
			}
			x := d.tables()
			for tag, b := range x {
				if tag == "head" && len(b) == 54 { // checksum and time of writing
					b = append([]byte{}, b...)
					copy(b[8:12], "\x00\x00\x00\x00")
					copy(b[28:36], "\x00\x00\x00\x00\x00\x00\x00\x00")
					x[tag] = b
				}
			}
			return tablesDigest(&font.SFNT{Tables: x})
		}}
	case 14:
		return query{"WriteWOFF2", func(s *font.SFNT) string {
			w, err := s.WriteWOFF2()
			if err != nil {
				return err.Error()
			}
			s2, err := font.ParseFont(w, 0)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(s2.NumGlyphs(), len(s2.Tables))
		}}
	case 16:
		return query{"Merge", func(s *font.SFNT) string {
			x, err := font.ParseSFNT(b, 0)
			if err == nil {
				err = x.Merge(s, font.MergeOptions{RearrangeCmap: true})
			}
			if err != nil {
				return err.Error()
			}
			return tablesDigest(x)
		}}
	default:
		return query{"parse", func(*font.SFNT) string {
			s, err := font.ParseSFNT(b, 0)
			if err != nil {
				return err.Error()
			}
			return fmt.Sprint(s.NumGlyphs(), s.FindGlyphName("A"), s.GlyphName(0), s.GlyphToUnicode(0))
		}}
	}
}

func (k *Case) someRune(f *Font) rune {
	rm, _ := f.runeMap()
	rs := sortedRunes(rm)
	if 0 < len(rs) && k.P(80) {
		return rs[k.U(len(rs))]
	}
	return obsRunes[k.U(len(obsRunes))]
}

var raceSeen int

// races returns what the race detector has reported since the last call.
func races() string {
	m, _ := filepath.Glob(filepath.Join(os.Getenv("VERIF_OUT"), "race.*"))
	var all []byte
	for _, fn := range m {
		b, _ := os.ReadFile(fn)
		all = append(all, b...)
	}
	if len(all) <= raceSeen {
		return ""
	}
	s := string(all[raceSeen:])
	raceSeen = len(all)
	return s
}

func TestP33(t *testing.T) {
	run(t, "P33", "several goroutines use one font and at least two of them make the same kind of call, so that first uses meet; distinct by font and calls", func(c *Ctx) {
		c.check("shared", c.n(250, 4000), func(k *Case) {
			o := FontOpt{MaxN: 12, BigN: k.P(20)}
			f := k.genFont(o)
			if k.P(5) {
				k.bigMap(f)
			}
			b := f.bytes(k)
			k.artifact("font", b)
			kinds := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11}
			switch k.U(6) {
			case 0: // few kinds of calls, which meet often
				kinds = []int{1, 4, 0}
			case 1:
				kinds = []int{6, 7}
			case 2: // also what makes new fonts
				if !f.CFF || len(f.CFFM.FDSel) == 0 {
					kinds = append(kinds, 12, 12, 12, 13, 13, 14, 15, 16)
				} else {
					kinds = append(kinds, 13, 15)
				}
			}
			workers := 2 + k.U(5)
			qs := make([][]query, workers)
			kindOf := map[string]int{}
			meets := false
			key := append([]byte{}, b...)
			for i := range qs {
				own := map[string]bool{}
				for j := k.I(1, 8); 0 < j; j-- {
					var q query
					if 0 < i && k.P(40) && 0 < len(qs[i-1]) {
						q = qs[i-1][k.U(len(qs[i-1]))] // the same call as another
					} else {
						q = k.genQuery(f, b, kinds)
					}
					qs[i] = append(qs[i], q)
					own[strings.SplitN(q.name, "(", 2)[0]] = true
					key = append(key, q.name...)
				}
				for name := range own {
					kindOf[name]++
					meets = meets || 1 < kindOf[name]
				}
				k.note("goroutine %d: %v", i, names(qs[i]))
			}
			// answers when called alone, each on a font of its own
			want := make([][]string, workers)
			for i := range qs {
				for _, q := range qs[i] {
					s := k.mustParse(b, "font")
					k.guard(q.name, func() { want[i] = append(want[i], q.f(s)) })
				}
			}
			keep := append([]byte{}, b...)
			k.saveCurrent("goroutines sharing a font")
			rounds := 2
			for round := 0; round < rounds; round++ {
				s := k.mustParse(b, "font")
				got := make([][]string, workers)
				panics := make([]string, workers)
				start := make(chan struct{})
				var wg sync.WaitGroup
				for i := range qs {
					wg.Add(1)
					go func(i int) {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								panics[i] = fmt.Sprint(r)
							}
						}()
						<-start
						for _, q := range qs[i] {
							got[i] = append(got[i], q.f(s))
						}
					}(i)
				}
				close(start)
				wg.Wait()
				for i := range qs {
					if panics[i] != "" {
						k.failf("goroutine %d panics at %v: %s", i, names(qs[i])[len(got[i])], panics[i])
					}
					for j, q := range qs[i] {
						if got[i][j] != want[i][j] {
							k.failf("goroutine %d: %s gives %.300s, and %.300s when called alone", i, q.name, got[i][j], want[i][j])
						}
					}
				}
				if r := races(); strings.Contains(r, "tdewolff/font") {
					k.failf("%s", r)
				} else if r != "" {
					k.c.bad("race in the harness:\n%s", r)
				}
			}
			if !bytes.Equal(keep, b) {
				k.failf("the bytes of the font have changed")
			}
			k.class("%d goroutines", workers)
			k.class("CFF %v", f.CFF)
			if meets {
				k.nontrivial(key, func() string { return fmt.Sprintf("%v on %s", names(qs[0]), f) })
			}
		})
	})
}

func names(qs []query) []string {
	var out []string
	for _, q := range qs {
		out = append(out, q.name)
	}
	return out
}
