package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"
	"time"

	"github.com/tdewolff/font"
)

// sameTables compares two sets of tables; head may differ in its checksum adjustment and, when
// modified is set, in its modification time.
func sameTables(got, want map[string][]byte, modified bool) error {
	for _, tag := range sortedTags(want) {
		g, ok := got[tag]
		if !ok {
			return fmt.Errorf("table %q is missing", tag)
		}
		w := want[tag]
		if tag == "head" && len(g) == len(w) && 12 <= len(g) {
			g, w = append([]byte{}, g...), append([]byte{}, w...)
			copy(g[8:12], w[8:12])
			if modified && 36 <= len(g) {
				copy(g[28:36], w[28:36])
			}
		}
		if !bytes.Equal(g, w) {
			return fmt.Errorf("table %q differs: %s", tag, diffBytes(g, w))
		}
	}
	for _, tag := range sortedTags(got) {
		if _, ok := want[tag]; !ok {
			return fmt.Errorf("unexpected table %q", tag)
		}
	}
	return nil
}

func diffBytes(g, w []byte) string {
	i := 0
	for i < len(g) && i < len(w) && g[i] == w[i] {
		i++
	}
	cut := func(b []byte) []byte { return b[min(i, len(b)):min(i+16, len(b))] }
	return fmt.Sprintf("%d bytes instead of %d, from byte %d [% x] instead of [% x]", len(g), len(w), i, cut(g), cut(w))
}

// checkWritten checks a file written from tables.
func (k *Case) checkWritten(out []byte, version string, tables map[string][]byte, what string) *directory {
	k.Helper()
	d, err := refDirectory(out)
	if err != nil {
		k.artifact("written", out)
		k.failf("%s: the file is not well formed: %v", what, err)
	}
	if d.version != version {
		k.artifact("written", out)
		k.failf("%s: version %q, expected %q", what, d.version, version)
	}
	got := d.tables()
	if err := sameTables(got, tables, true); err != nil {
		k.artifact("written", out)
		k.failf("%s: %v", what, err)
	}
	if h, ok := got["head"]; ok && 36 <= len(h) {
		old := tables["head"]
		if !bytes.Equal(h[28:36], old[28:36]) {
			at := time.Date(1904, 1, 1, 0, 0, 0, 0, time.UTC).Unix() + int64(binary.BigEndian.Uint64(h[28:36]))
			if d := time.Now().Unix() - at; d < -3600 || 3600 < d {
				k.failf("%s: the modification time is %v, neither the old one nor now", what, time.Unix(at, 0).UTC())
			}
		}
	}
	return d
}

func (f *Font) writtenVersion() string {
	if f.CFF {
		return "OTTO"
	}
	return "\x00\x01\x00\x00"
}

func (k *Case) genTag() string {
	b := make([]byte, 4)
	for i := range b {
		b[i] = byte(k.I(32, 126))
	}
	return string(b)
}

func TestP13(t *testing.T) {
	run(t, "P13", "the font has tables of lengths that are not multiples of four and a table count that is not a power of two; distinct by font file", func(c *Ctx) {
		c.check("write", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 12, HugeN: 1})
			k.bigExtra(f)
			if k.P(30) {
				n := pick(k, 1, 2, 3, 5, 8, 13, 16, 30, 60)
				for i := 0; i < n; i++ {
					tag := k.genTag()
					if !isKnownTag(tag) {
						f.Extra[tag] = k.blob(k.I(0, 9))
					}
				}
			}
			b := f.bytes(k)
			keep := append([]byte{}, b...)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			var out []byte
			k.guard("Write", func() { out = s.Write() })
			d := k.checkWritten(out, f.writtenVersion(), f.tables, "Write")
			if err := sameTables(s.Tables, f.tables, false); err != nil {
				k.failf("after Write the font's own tables changed: %v", err)
			}
			// parse and write again
			s2 := k.mustParse(out, "written")
			if err := sameTables(s2.Tables, d.tables(), false); err != nil {
				k.failf("parsing the written file: %v", err)
			}
			var out2 []byte
			k.guard("Write", func() { out2 = s2.Write() })
			k.checkWritten(out2, f.writtenVersion(), f.tables, "second Write")
			k.sameObs(observe(s, f.N()), observe(s2, f.N()), "written and parsed again")
			if !bytes.Equal(b, keep) {
				k.failf("Write changed the input file")
			}
			odd := false
			for _, e := range d.entries {
				odd = odd || e.size%4 != 0
			}
			n := len(d.entries)
			k.classIf(f.CFF, "CFF")
			k.class("tables<=%d", 1<<uint(math.Ceil(math.Log2(float64(n)))))
			if odd && n&(n-1) != 0 {
				k.nontrivial(b, f.String)
			}
		})
		c.check("many tables", c.n(4, 40), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 3, NoExtra: true})
			n := k.I(100, 4000)
			r := k.rng()
			for i := 0; i < n; i++ {
				b := []byte{byte(97 + i%26), byte(48 + i/26%78), byte(48 + i/26/78), byte(48 + r.n(78))}
				if !isKnownTag(string(b)) {
					f.Extra[string(b)] = make([]byte, r.n(7))
				}
			}
			b := f.bytes(k)
			s := k.mustParse(b, "font")
			var out []byte
			k.guard("Write", func() { out = s.Write() })
			k.checkWritten(out, f.writtenVersion(), f.tables, "Write")
			k.nontrivial(b, func() string { return fmt.Sprintf("%d tables", n) })
		})
		c.check("embedded", c.n(300, 4000), func(k *Case) {
			// PDF-embedded fonts have fewer required tables
			f := k.genFont(FontOpt{MaxN: 12})
			t := f.encTables(k)
			keepTags := map[string]bool{"cmap": true, "CFF ": true}
			if !f.CFF {
				keepTags = map[string]bool{"glyf": true, "head": true, "hhea": true, "hmtx": true, "loca": true, "maxp": true}
			}
			for _, tag := range sortedTags(t) {
				if !keepTags[tag] && k.P(60) {
					if tag == "vhea" || tag == "vmtx" { // depend on each other
						delete(t, "vhea")
						delete(t, "vmtx")
					}
					delete(t, tag)
				}
			}
			b := buildSFNT(f.version(), t, nil)
			k.artifact("font", b)
			d, err := refDirectory(b)
			if err != nil {
				panic(err)
			}
			var s *font.SFNT
			k.guard("ParseEmbeddedSFNT", func() { s, err = font.ParseEmbeddedSFNT(b, 0) })
			if err != nil {
				k.failf("a valid embedded font is rejected: %v", err)
			}
			var out []byte
			k.guard("Write", func() { out = s.Write() })
			k.checkWritten(out, f.writtenVersion(), d.tables(), "Write")
			k.class("tables=%d", len(t))
			if len(t) < 10 {
				k.nontrivial(b, func() string { return fmt.Sprintf("%v %s", sortedTags(t), f) })
			}
		})
	})
}

func isKnownTag(tag string) bool {
	switch tag {
	case "cmap", "head", "hhea", "hmtx", "maxp", "name", "post", "OS/2", "glyf", "loca", "CFF ", "CFF2", "kern", "vhea", "vmtx", "GSUB", "GPOS", "DSIG", "JSTF":
		return true
	}
	return false
}

// genCollection builds a collection; want[i] are the tables of font i.
func (k *Case) genCollection(fonts []*Font) (b []byte, want []map[string][]byte, shared int) {
	n := len(fonts)
	v2 := k.B()
	hdr := 12 + 4*n
	if v2 {
		hdr += 12
	}
	type blk struct {
		font int
		tag  string // "" is the table directory
		data []byte
	}
	var blocks []*blk
	dirs := make([]*blk, n)
	use := make([]map[string]*blk, n)
	for i, f := range fonts {
		t := f.encTables(k)
		dirs[i] = &blk{font: i, data: make([]byte, 12+16*len(t))}
		use[i] = map[string]*blk{}
		for _, tag := range sortedTags(t) {
			var same *blk
			for j := 0; j < i && same == nil; j++ {
				if o := use[j][tag]; o != nil && bytes.Equal(o.data, t[tag]) {
					same = o
				}
			}
			if same != nil && k.P(85) {
				use[i][tag] = same
				shared++
				continue
			}
			x := &blk{font: i, tag: tag, data: t[tag]}
			use[i][tag] = x
			blocks = append(blocks, x)
		}
	}
	all := append(append([]*blk{}, dirs...), blocks...)
	switch k.U(4) {
	case 0: // directories first
	case 1: // any order
		for i := len(all) - 1; 0 < i; i-- {
			j := i - k.U(i+1)
			all[i], all[j] = all[j], all[i]
		}
	case 2: // directories last, reversed
		all = append([]*blk{}, blocks...)
		for i := n - 1; 0 <= i; i-- {
			all = append(all, dirs[i])
		}
	case 3: // font by font
		all = nil
		for i := range fonts {
			all = append(all, dirs[i])
			for _, x := range blocks {
				if x.font == i {
					all = append(all, x)
				}
			}
		}
	}
	pos := map[*blk]int{}
	off := hdr
	for _, x := range all {
		pos[x] = off
		off += (len(x.data) + 3) &^ 3
	}
	for i, f := range fonts {
		w := &W{}
		tags := []string{}
		for tag := range use[i] {
			tags = append(tags, tag)
		}
		m := map[string][]byte{}
		for _, tag := range tags {
			m[tag] = use[i][tag].data
		}
		tags = sortedTags(m)
		want = append(want, m)
		w.str(f.version())
		sr, es, rs := searchParams(len(tags), 16)
		w.u16(len(tags))
		w.u16(sr)
		w.u16(es)
		w.u16(rs)
		for _, tag := range tags {
			x := use[i][tag]
			d := append([]byte{}, x.data...)
			if tag == "head" {
				copy(d[8:12], []byte{0, 0, 0, 0})
			}
			w.str(tag)
			w.u32(checksum(d))
			w.u32(uint32(pos[x]))
			w.u32(uint32(len(x.data)))
		}
		copy(dirs[i].data, w.b)
	}
	w := &W{}
	w.str("ttcf")
	if v2 {
		w.u16(2)
	} else {
		w.u16(1)
	}
	w.u16(0)
	w.u32(uint32(n))
	for _, d := range dirs {
		w.u32(uint32(pos[d]))
	}
	if v2 {
		w.bytes(make([]byte, 12))
	}
	for _, x := range all {
		w.bytes(x.data)
		w.pad(4)
	}
	return w.b, want, shared
}

func TestP14(t *testing.T) {
	run(t, "P14", "the collection has at least two fonts that share tables or differ in flavour; distinct by file", func(c *Ctx) {
		c.check("collection", c.n(700, 10000), func(k *Case) {
			n := pick(k, 2, 3, 1, 4, 5, 8)
			var fonts []*Font
			for i := 0; i < n; i++ {
				switch {
				case 0 < i && k.P(35): // a variation of an earlier font sharing most tables
					g := *fonts[k.U(i)]
					k.genNameTable(&g)
					if k.B() {
						g.Subs = nil
						k.genCmap(&g, FontOpt{})
					}
					fonts = append(fonts, &g)
				case 0 < i && k.P(10):
					fonts = append(fonts, fonts[k.U(i)])
				default:
					f := k.genFont(FontOpt{MaxN: 6})
					k.bigExtra(f)
					fonts = append(fonts, f)
				}
			}
			b, want, shared := k.genCollection(fonts)
			k.artifact("collection", b)
			order := k.I(0, n-1)
			for j := 0; j < n; j++ {
				i := (j + order) % n
				var s *font.SFNT
				var err error
				k.guard("ParseSFNT", func() { s, err = font.ParseSFNT(b, i) })
				if err != nil {
					k.failf("font %d of %d is rejected: %v", i, n, err)
				}
				if err := sameTables(s.Tables, want[i], false); err != nil {
					k.failf("font %d of %d: %v", i, n, err)
				}
				f := fonts[i]
				if s.IsCFF != f.CFF || s.IsTrueType == f.CFF || int(s.NumGlyphs()) != f.N() {
					k.failf("font %d of %d: CFF=%v TrueType=%v glyphs=%d, expected CFF=%v glyphs=%d", i, n, s.IsCFF, s.IsTrueType, s.NumGlyphs(), f.CFF, f.N())
				}
				// the same font on its own
				alone := k.mustParse(buildSFNT(f.version(), want[i], nil), "alone")
				k.sameObs(observe(s, f.N()), observe(alone, f.N()), fmt.Sprintf("font %d of %d and the same font alone", i, n))
			}
			for _, i := range []int{-1, n, n + 1, math.MinInt32, 1 << 16, math.MaxInt32, math.MaxInt, 1 << 32, -1 << 32, 1<<32 + n - 1, 1 << 31, n + k.U(1000), -1 - k.U(1000)} {
				var err error
				k.guard(fmt.Sprintf("ParseSFNT(b, %d)", i), func() { _, err = font.ParseSFNT(b, i) })
				if err == nil {
					k.failf("index %d of a collection of %d fonts is accepted", i, n)
				}
			}
			mixed := false
			for _, f := range fonts {
				mixed = mixed || f.CFF != fonts[0].CFF
			}
			k.class("fonts=%d", n)
			k.classIf(0 < shared, "shared tables")
			k.classIf(mixed, "mixed flavours")
			if 1 < n && (mixed || 0 < shared) {
				k.nontrivial(b, func() string { return fmt.Sprintf("%d fonts, %d shared tables, %d bytes", n, shared, len(b)) })
			}
		})
		c.check("single", c.n(200, 2000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 4})
			b := f.bytes(k)
			for _, i := range []int{1, -1, 2, 65536, math.MaxInt, math.MinInt, 1 << 32, 1 + k.U(100000)} {
				var err, err2 error
				k.guard(fmt.Sprintf("ParseSFNT(b, %d)", i), func() {
					_, err = font.ParseSFNT(b, i)
					_, err2 = font.ParseEmbeddedSFNT(b, i)
				})
				if err == nil || err2 == nil {
					k.artifact("font", b)
					k.failf("index %d of a single font is accepted", i)
				}
			}
		})
	})
}
