package harness

// Results depend on the input bytes only, and the input bytes stay as they are.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"testing"

	"github.com/tdewolff/font"
)

// spareBytes returns b in a slice with spare capacity, and a function that tells whether anything changed.
func (k *Case) spareBytes(b []byte) ([]byte, func(what string)) {
	buf := make([]byte, len(b)+64)
	copy(buf, b)
	for i := len(b); i < len(buf); i++ {
		buf[i] = byte(0xA5 ^ i)
	}
	in := bytes.Clone(buf)
	lead := pick(k, true, true, false)
	v := buf[:len(b):len(b)]
	if lead {
		v = buf[:len(b)]
	}
	return v, func(what string) {
		if !bytes.Equal(buf, in) {
			for i := range buf {
				if buf[i] != in[i] {
					k.failf("%s changed byte %d of %d of the input from %#x to %#x", what, i, len(b), in[i], buf[i])
				}
			}
		}
	}
}

func dumpTables(s *font.SFNT) string {
	var out []byte
	for _, v := range []any{s.Version, s.Length, s.IsCFF, s.IsTrueType, s.Head, s.Hhea, s.OS2, s.Maxp, s.Post, s.Vhea, s.Hmtx, s.Vmtx, s.Name, s.Tables} {
		b, err := json.Marshal(v)
		if err != nil {
			b = []byte(err.Error())
		}
		out = append(append(out, b...), '\n')
	}
	return string(out)
}

func (k *Case) sameFont(a, b *font.SFNT, what string) {
	k.Helper()
	if (a == nil) != (b == nil) {
		k.failf("%s: accepted %v or %v", what, a != nil, b != nil)
	} else if a == nil {
		return
	}
	k.sameTables(dumpTables(a), dumpTables(b), what)
	n := min(int(a.NumGlyphs()), 30)
	var o1, o2 *Obs
	k.guard("queries", func() { o1 = observe(a, n) })
	k.guard("queries", func() { o2 = observe(b, n) })
	k.sameObs(o1, o2, what)
}

func (k *Case) sameTables(d1, d2, what string) {
	k.Helper()
	if d1 != d2 {
		i := 0
		for i < len(d1) && i < len(d2) && d1[i] == d2[i] {
			i++
		}
		j := max(0, i-40)
		k.failf("%s: tables differ: %.120q or %.120q", what, d1[j:], d2[j:])
	}
}

// maskModified zeroes the modification time and the checksums that depend on it.
func maskModified(b []byte) []byte {
	b = bytes.Clone(b)
	if h := findTable(b, "head"); 36 <= len(h) {
		copy(h[8:12], make([]byte, 4))
		copy(h[28:36], make([]byte, 8))
	}
	for i := 0; 12 <= len(b) && i < be16(b, 4) && 28+16*i <= len(b); i++ {
		if string(b[12+16*i:16+16*i]) == "head" {
			copy(b[16+16*i:20+16*i], make([]byte, 4))
		}
	}
	return b
}

func TestP05(t *testing.T) {
	run(t, "P05", "a file that is decoded or parsed and then worked on with at least one rewriting operation or two parses", func(c *Ctx) {
		c.check("histories", c.n(900, 30000), func(k *Case) {
			var b []byte
			index := 0
			var what fmt.Stringer
			if k.P(55) {
				m := k.genMutant(MutOpt{Mild: true, Dir: k.P(30), Real: 1})
				b, index, what = m.b, m.index, m
			} else {
				o := k.genContainer(pick(k, 0, 0, 1, 2))
				b, what = o.b, o
			}
			k.artifact("font", b)
			k.note("%v", what)
			buf, same := k.spareBytes(b)
			copyOf := bytes.Clone(b)

			parse := font.ParseSFNT
			mode := "ParseSFNT"
			if k.P(15) {
				parse, mode = font.ParseEmbeddedSFNT, "ParseEmbeddedSFNT"
			} else if len(b) < 4000 && k.P(3) {
				parse, mode = font.ParseFont, "ParseFont"
			}
			var s1, s2 *font.SFNT
			k.guard(mode, func() { s1, _ = parse(buf, index) })
			same(mode)
			k.guard(mode+" of a copy", func() { s2, _ = parse(copyOf, index) })
			if (s1 == nil) != (s2 == nil) {
				k.failf("%s accepts the bytes %v, and a copy of them %v", mode, s1 != nil, s2 != nil)
			}
			if s1 != nil {
				k.sameTables(dumpTables(s1), dumpTables(s2), "two parses")
			}
			var out1, out2 []byte
			k.guard("ToSFNT", func() { out1, _ = font.ToSFNT(buf) })
			same("ToSFNT")
			k.guard("MediaType", func() { font.MediaType(buf); font.Extension(buf) })
			same("MediaType")
			if out1 != nil && k.B() { // writing the decoded font leaves the container alone
				for _, x := range [][2]string{{"wOFF", ""}, {"wOF2", ""}} {
					if string(buf[:min(4, len(buf))]) == x[0] {
						snap := bytes.Clone(out1)
						for i := range out1 {
							out1[i] ^= 0xFF
						}
						same("writing to the decoded font")
						copy(out1, snap)
					}
				}
			}
			ops := []string{}
			kept, keptIs := out1, bytes.Clone(out1) // a decoded font stays as it is whatever is decoded next
			for i := k.U(3); 0 < i && kept != nil; i-- {
				o := k.genContainer(pick(k, 0, 0, 1, 2))
				k.artifact("another container", o.b)
				var out []byte
				k.guard("ToSFNT of another file", func() { out, _ = font.ToSFNT(o.b) })
				if k.B() {
					k.guard("ParseSFNT of another file", func() { font.ParseSFNT(o.b, 0) })
				}
				if !bytes.Equal(kept, keptIs) {
					k.failf("decoding another file (%v) changes what was decoded from this one: %s", o, diffBytes(kept, keptIs))
				}
				k.classIf(out != nil, "another file decoded")
			}
			first := s1
			rewritten := false
			for i := k.U(5); s1 != nil && 0 < i; i-- {
				n := max(int(s1.NumGlyphs()), 1)
				op := ""
				switch k.U(8) {
				case 0, 1:
					l, t := k.anyList(n), k.anyTables()
					op = fmt.Sprintf("Subset(%d glyphs, %q)", len(l), t)
					k.note("%s", op)
					var a *font.SFNT
					k.guard(op, func() { a, _ = s1.Subset(l, font.SubsetOptions{Tables: t}) })
					same(op)
					if s1 == first && !rewritten { // the same on the untouched twin
						var b *font.SFNT
						k.guard(op, func() { b, _ = s2.Subset(l, font.SubsetOptions{Tables: t}) })
						if (a == nil) != (b == nil) {
							k.failf("%s is done %v, and on a twin font %v", op, a != nil, b != nil)
						}
						if a != nil && !bytes.Equal(maskModified(a.Write()), maskModified(b.Write())) {
							k.failf("%s gives another font for a twin font", op)
						}
						k.class("twin subsets")
					}
					if a != nil && k.P(70) {
						s1 = a
					}
				case 2:
					op = "Write"
					k.note("%s", op)
					var a, b []byte
					k.guard(op, func() { a = s1.Write() })
					k.guard(op, func() { b = s1.Write() })
					if !bytes.Equal(maskModified(a), maskModified(b)) {
						k.failf("Write twice gives different fonts")
					}
				case 3:
					op = "WriteWOFF2"
					k.note("%s", op)
					var a, b []byte
					k.guard(op, func() { a, _ = s1.WriteWOFF2() })
					k.guard(op, func() { b, _ = s1.WriteWOFF2() })
					if !bytes.Equal(a, b) {
						k.failf("WriteWOFF2 twice gives different fonts")
					}
				case 4:
					op = "SetGlyphNames"
					names := []string{".notdef"}
					for len(names) < n && len(names) < 400 {
						names = append(names, fmt.Sprintf("name%d", len(names)))
					}
					k.note("%s", op)
					rewritten = rewritten || s1 == first
					k.guard(op, func() { s1.SetGlyphNames(names) })
				case 5, 6:
					f := k.genFont(FontOpt{Flavour: map[bool]int{false: 1, true: 2}[s1.IsCFF], MaxN: 6, NoCID: true})
					b2, same2 := k.spareBytes(f.bytes(k))
					s3 := k.mustParse(b2, "second font")
					r := k.P(80)
					op = fmt.Sprintf("Merge(%v, rearrange %v)", f, r)
					if k.P(30) {
						op = fmt.Sprintf("merged into %v, rearrange %v", f, r)
						k.note("%s", op)
						d := dumpTables(s1)
						k.guard(op, func() { s3.Merge(s1, font.MergeOptions{RearrangeCmap: r}) })
						if d != dumpTables(s1) {
							k.failf("%s changes the second font", op)
						}
					} else {
						k.note("%s", op)
						d := dumpTables(s3)
						rewritten = rewritten || s1 == first
						k.guard(op, func() { s1.Merge(s3, font.MergeOptions{RearrangeCmap: r}) })
						if d != dumpTables(s3) {
							k.failf("%s changes the second font", op)
						}
					}
					same2(op)
				default:
					op = "queries"
					k.note("%s", op)
					k.queryAll(s1, len(b)+1<<20, n)
				}
				same(op)
				ops = append(ops, op)
				k.class("op %.5s", op)
			}
			// afresh from the same bytes
			var s3 *font.SFNT
			k.guard(mode+" at the end", func() { s3, _ = parse(buf, index) })
			same(mode + " at the end")
			k.guard("ToSFNT at the end", func() { out2, _ = font.ToSFNT(buf) })
			if !bytes.Equal(out1, out2) || (out1 == nil) != (out2 == nil) {
				k.failf("ToSFNT of the same bytes gives %d bytes and then %d other bytes", len(out1), len(out2))
			}
			k.sameFont(s2, s3, "parsing again after "+fmt.Sprint(ops))
			if s1 != nil && s1 == first && !rewritten {
				k.sameFont(s1, s3, "the font after "+fmt.Sprint(ops))
			}
			same("queries at the end")
			k.class(mode)
			k.classIf(s2 != nil, "accepted")
			k.classIf(s2 == nil, "refused")
			if s2 != nil || out1 != nil {
				k.nontrivial(append(b, fmt.Sprint(ops)...), func() string { return fmt.Sprintf("%v: %v", what, ops) })
			}
		})
	})
}
