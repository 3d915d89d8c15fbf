package harness

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"testing"

	"github.com/tdewolff/font"
)

// decodeOK runs a decoder that must accept its input and leave it alone.
func (k *Case) decodeOK(what string, b []byte, dec func([]byte) ([]byte, error)) []byte {
	k.Helper()
	keep := append([]byte{}, b...)
	var out []byte
	var err error
	k.guard(what, func() { out, err = dec(b) })
	if err != nil {
		k.failf("%s rejects a valid file: %v", what, err)
	}
	if !bytes.Equal(b, keep) {
		k.failf("%s changed its input", what)
	}
	return out
}

func (k *Case) decodeFails(what, why string, b []byte, dec func([]byte) ([]byte, error)) {
	k.Helper()
	var err error
	k.guard(what+" of a file with "+why, func() { _, err = dec(b) })
	if err == nil {
		k.artifact("file", b)
		k.failf("%s accepts a file with %s", what, why)
	}
}

// sfntEquals checks a decoded SFNT file against the tables it must hold; head's adjustment is free
// but the whole-file checksum must verify.
func (k *Case) sfntEquals(out []byte, version string, tables map[string][]byte, what string) *directory {
	k.Helper()
	d, err := refDirectory(out)
	if err != nil {
		k.artifact("decoded", out)
		k.failf("%s: the result is not a well-formed SFNT: %v", what, err)
	}
	if d.version != version {
		k.failf("%s: version %q, expected %q", what, d.version, version)
	}
	if err := sameTables(d.tables(), tables, false); err != nil {
		k.artifact("decoded", out)
		k.failf("%s: %v", what, err)
	}
	return d
}

func TestP06(t *testing.T) {
	run(t, "P06", "the file has both compressed and raw tables, or metadata or private data; distinct by file", func(c *Ctx) {
		c.check("woff", c.n(1500, 25000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 10, BigN: true, HugeN: 1})
			k.bigExtra(f)
			b := f.bytes(k)
			w := k.genWOFF(f.version(), f.tables)
			k.artifact("woff", w.b)
			out := k.decodeOK("ParseWOFF", w.b, font.ParseWOFF)
			k.sfntEquals(out, f.version(), f.tables, "ParseWOFF")
			s, s2 := k.mustParse(b, "original"), k.mustParse(w.b, "woff")
			if err := sameTables(s2.Tables, s.Tables, false); err != nil {
				k.failf("ParseSFNT of the WOFF file: %v", err)
			}
			k.sameObs(observe(s, min(f.N(), 40)), observe(s2, min(f.N(), 40)), "original and unwrapped font")
			nc := 0
			for _, e := range w.entries {
				if e.comp {
					nc++
				}
			}
			k.class("compressed %d%%", nc*4/len(w.entries)*25)
			k.classIf(w.meta, "metadata")
			k.classIf(w.priv, "private data")
			if 0 < nc && nc < len(w.entries) || w.meta || w.priv {
				k.nontrivial(w.b, func() string {
					return fmt.Sprintf("%d tables, %d compressed, metadata %v, private %v, %d bytes", len(w.entries), nc, w.meta, w.priv, len(w.b))
				})
			}
		})
		c.check("tables", c.n(800, 10000), func(k *Case) {
			// any tables, as ParseWOFF does not look into them
			n := pick(k, 1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 64, 1+k.U(40))
			tables := map[string][]byte{"head": k.blob(pick(k, 54, 12, 16, 56, 13, 100))}
			copy(tables["head"][8:12], []byte{0, 0, 0, 0})
			for i := 1; i < n; i++ {
				b := k.blob(pick(k, 4, 0, 1, 2, 3, 5, 40, 200))
				if k.P(40) {
					b = bytes.Repeat([]byte{byte(i)}, pick(k, 100, 20, 1000, 5000, 40000))
				}
				if i == 1 && k.P(3) {
					b = k.bigBlob()
				}
				tables[k.genTag()] = b
			}
			version := pick(k, "\x00\x01\x00\x00", "OTTO", "true")
			b := buildSFNT(version, tables, nil)
			d, err := refDirectory(b)
			if err != nil {
				panic(err)
			}
			w := k.genWOFF(version, d.tables())
			k.artifact("woff", w.b)
			out := k.decodeOK("ParseWOFF", w.b, font.ParseWOFF)
			k.sfntEquals(out, version, tables, "ParseWOFF")
			comp := false
			for _, e := range w.entries {
				comp = comp || e.comp
			}
			if comp {
				k.nontrivial(w.b, func() string { return fmt.Sprintf("%d tables", len(tables)) })
			}
		})
	})
}

// corruptWOFF makes one fault of the kinds that must be rejected.
func (k *Case) corruptWOFF(w *woffFile) (b []byte, why string) {
	b = append([]byte{}, w.b...)
	be := binary.BigEndian
	put := func(off int, v uint32) { be.PutUint32(b[off:], v) }
	anyE := func() *woffEntry { return w.entries[k.U(len(w.entries))] }
	nonEmpty := func(comp, notComp bool) *woffEntry {
		i := k.U(len(w.entries))
		for j := range w.entries {
			e := w.entries[(i+j)%len(w.entries)]
			if 0 < len(e.data) && (!comp || e.comp) && (!notComp || !e.comp) {
				return e
			}
		}
		return nil
	}
	for {
		switch k.U(19) {
		case 0:
			i := k.U(4)
			b[i] ^= byte(1 + k.U(255))
			return b, "another signature"
		case 1:
			if k.B() {
				b = append(b, make([]byte, 1+k.U(8))...)
				return b, "a length field smaller than the file"
			}
			put(8, uint32(int(be32(b, 8))+pick(k, 1, -1, 4, -4, 1<<20)))
			return b, "a wrong length field"
		case 2:
			b[14+k.U(2)] = byte(1 + k.U(255))
			return b, "a non-zero reserved field"
		case 3:
			be.PutUint16(b[12:], 0)
			return b, "zero tables"
		case 4:
			n := len(w.entries)
			be.PutUint16(b[12:], uint16(pick(k, n+1, n-1, n+100, 65535, n+k.U(50)+1)))
			return b, "a wrong table count"
		case 5:
			put(16, uint32(w.total+pick(k, 1, -1, 2, 4, -4, 16, 1<<20, -w.total, 3)))
			return b, "a wrong uncompressed size"
		case 6: // swap two directory entries
			if len(w.entries) < 2 {
				continue
			}
			i := k.U(len(w.entries) - 1)
			j := i + 1 + k.U(len(w.entries)-i-1)
			x, y := w.entries[i].dirOffset, w.entries[j].dirOffset
			t := append([]byte{}, b[x:x+20]...)
			copy(b[x:x+20], b[y:y+20])
			copy(b[y:y+20], t)
			return b, "an unsorted directory"
		case 7: // the same table twice, empty so that nothing else is wrong
			e := anyE()
			w2 := *w
			if dup := w2.withDuplicate(k, e.tag); dup != nil {
				return dup, "a table listed twice"
			}
			continue
		case 8:
			e := anyE()
			o := len(b) + 4*k.U(10)
			if len(e.data) == 0 {
				continue
			}
			if k.B() {
				o = len(b) - len(e.data) + 1 + k.U(len(e.data))
			}
			put(e.dirOffset+4, uint32(o))
			return b, "a table offset that leads beyond the file"
		case 9:
			e := anyE()
			if len(e.data) == 0 {
				continue
			}
			put(e.dirOffset+4, uint32(pick(k, math.MaxUint32, math.MaxUint32-3, 1<<31, math.MaxUint32-len(e.data)+1)))
			return b, "a huge table offset"
		case 10:
			e := anyE()
			n := uint32(pick(k, math.MaxUint32, 1<<31, len(b)-e.off+1, len(b)+1, math.MaxUint32-e.off+1))
			put(e.dirOffset+8, n)
			if k.B() {
				put(e.dirOffset+12, n)
			}
			return b, "a table length that leads beyond the file"
		case 11: // overlap with the directory or another table
			e, o := nonEmpty(false, false), anyE()
			if e == o || len(o.data) == 0 {
				continue
			}
			switch k.U(4) {
			case 0:
				put(e.dirOffset+4, uint32(k.U(44+20*len(w.entries))))
			case 1:
				put(e.dirOffset+4, uint32(44+20*len(w.entries)-4))
			case 2: // the very same place
				put(e.dirOffset+4, uint32(o.off))
			case 3:
				put(e.dirOffset+4, uint32(o.off+k.U(len(o.data))))
			}
			return b, "overlapping data"
		case 12: // overlap by identical contents: shares a valid range
			if s := w.withShared(k); s != nil {
				return s, "two tables sharing their data"
			}
			continue
		case 13:
			e := anyE()
			if e.comp {
				// declare a smaller uncompressed table
				put(e.dirOffset+12, uint32(k.U(len(e.data))))
			} else {
				if e.orig == 0 {
					continue
				}
				put(e.dirOffset+12, uint32(k.U(e.orig)))
			}
			return b, "a compressed length over the original length"
		case 14: // damage the compressed data
			e := nonEmpty(true, false)
			if e == nil {
				continue
			}
			switch k.U(4) {
			case 0:
				b[e.off] ^= 0x0F // zlib header
			case 1:
				copy(b[e.off+len(e.data)-4:], []byte{b[e.off+len(e.data)-4] ^ byte(1+k.U(255))}) // adler32
			case 2:
				put(e.dirOffset+8, uint32(len(e.data)-1-k.U(min(4, len(e.data)-1))))
			case 3:
				for i := 2; i < len(e.data); i++ {
					b[e.off+i] = 0xFF
				}
			}
			return b, "a damaged compressed stream"
		case 15: // original length that differs from the data
			e := nonEmpty(true, false)
			if e == nil {
				continue
			}
			// keep the rounded size so that only this field is wrong
			d := pick(k, 1, -1, 2, -2, 3, -3, 4, -4, 8)
			n := e.orig + d
			if n <= len(e.data) {
				continue
			}
			put(e.dirOffset+12, uint32(n))
			put(16, uint32(w.total-(e.orig+3)&^3+(n+3)&^3))
			return b, "data that decompresses to another length"
		case 16: // raw data declared as compressed
			e := nonEmpty(false, true)
			if e == nil || (e.orig == 2 && false) {
				continue
			}
			n := e.orig + 4
			put(e.dirOffset+12, uint32(n))
			put(16, uint32(w.total+4))
			if 2 <= len(e.data) && e.data[0]&15 == 8 && be16(e.data, 0)%31 == 0 {
				continue
			}
			return b, "raw data declared as compressed"
		case 17: // damage a raw table
			e := nonEmpty(false, true)
			if e == nil {
				continue
			}
			i := k.U(len(e.data))
			if e.tag == "head" && 8 <= i && i < 12 {
				continue
			}
			b[e.off+i] ^= byte(1 + k.U(255))
			return b, "a table that does not match its checksum"
		case 18:
			e := anyE()
			i := e.dirOffset + 16 + k.U(4)
			b[i] ^= byte(1 + k.U(255))
			return b, "a wrong table checksum"
		}
	}
}

// withDuplicate rebuilds the file with an additional entry for a tag.
func (w *woffFile) withDuplicate(k *Case, tag string) []byte {
	n := len(w.entries)
	cut := 44 + 20*n
	var dir W
	for _, e := range w.entries {
		d := append([]byte{}, w.b[e.dirOffset:e.dirOffset+20]...)
		binary.BigEndian.PutUint32(d[4:], uint32(e.off+20))
		dup := append([]byte{}, d...)
		// an empty table with the checksum of nothing
		binary.BigEndian.PutUint32(dup[4:], uint32(len(w.b)+20)&^3)
		binary.BigEndian.PutUint32(dup[8:], 0)
		binary.BigEndian.PutUint32(dup[12:], 0)
		binary.BigEndian.PutUint32(dup[16:], 0)
		if e.tag == tag && tag != "head" {
			if k.B() {
				dir.bytes(d)
				dir.bytes(dup)
			} else {
				dir.bytes(dup)
				dir.bytes(d)
			}
			continue
		}
		dir.bytes(d)
	}
	if len(dir.b) == 20*n {
		return nil
	}
	b := append(append(append([]byte{}, w.b[:44]...), dir.b...), w.b[cut:]...)
	be := binary.BigEndian
	be.PutUint32(b[8:], uint32(len(b)))
	be.PutUint16(b[12:], uint16(n+1))
	be.PutUint32(b[16:], uint32(w.total+16))
	for _, o := range []int{24, 36} {
		if v := be32(b, o); v != 0 {
			be.PutUint32(b[o:], v+20)
		}
	}
	return b
}

// withShared makes an entry point at a part of another entry's data that is valid for it.
func (w *woffFile) withShared(k *Case) []byte {
	for i, e := range w.entries {
		for j, o := range w.entries {
			if i == j || len(e.data) == 0 || len(o.data) < len(e.data) {
				continue
			}
			if p := bytes.Index(o.data, e.data); 0 <= p {
				b := append([]byte{}, w.b...)
				binary.BigEndian.PutUint32(b[e.dirOffset+4:], uint32(o.off+p))
				return b
			}
		}
	}
	return nil
}

func TestP07(t *testing.T) {
	run(t, "P07", "every case is a valid file with one fault; distinct by file", func(c *Ctx) {
		c.check("fault", c.n(6000, 80000), func(k *Case) {
			// arbitrary tables, small so that faults are dense
			n := pick(k, 3, 1, 2, 5, 9)
			tables := map[string][]byte{"head": k.blob(54)}
			tables["cmap"] = k.blob(pick(k, 40, 2, 3, 41))
			for i := 1; i < n; i++ {
				b := k.blob(pick(k, 4, 1, 2, 3, 5, 40, 0))
				if k.P(50) {
					b = bytes.Repeat([]byte{byte(i), 1}, pick(k, 50, 20, 300))
					b = b[:len(b)-k.U(4)]
				}
				tables[k.genTag()] = b
			}
			if k.P(20) { // equal contents
				tables["aaaa"] = tables["cmap"]
			}
			version := pick(k, "\x00\x01\x00\x00", "OTTO")
			d, err := refDirectory(buildSFNT(version, tables, nil))
			if err != nil {
				panic(err)
			}
			w := k.genWOFF(version, d.tables())
			k.decodeOK("ParseWOFF", w.b, font.ParseWOFF)
			b, why := k.corruptWOFF(w)
			if bytes.Equal(b, w.b) {
				return
			}
			k.class("%s", why)
			k.decodeFails("ParseWOFF", why, b, font.ParseWOFF)
			k.decodeFails("ToSFNT", why, b, func(b []byte) ([]byte, error) {
				if string(b[:4]) != "wOFF" {
					return nil, fmt.Errorf("another format")
				}
				return font.ToSFNT(b)
			})
			k.nontrivial(b, func() string { return fmt.Sprintf("%s in %d bytes, %d tables", why, len(b), len(w.entries)) })
		})
	})
}

func (f *Font) withoutZeroConts() {
	for _, g := range f.Glyphs {
		g.ZeroConts = false
	}
}

func TestP08(t *testing.T) {
	run(t, "P08", "a TrueType font with transformed glyphs, at least one of them a simple glyph with points; distinct by file", func(c *Ctx) {
		c.check("woff2", c.n(1500, 25000), func(k *Case) {
			f := k.genFont(FontOpt{BigN: true, HugeN: 1, Wide: true})
			k.bigExtra(f)
			if !f.CFF && k.P(40) { // elide one of the side bearing arrays
				for i, g := range f.Glyphs {
					if (i < f.NHM) == (f.NHM%2 == 0) {
						g.LSB = 0
						if !g.isEmpty() {
							g.LSB = g.BBox[0]
						}
					}
				}
			}
			b := f.bytes(k)
			w := k.genWOFF2(f)
			k.artifact("woff2", w.b)
			out := k.decodeOK("ParseWOFF2", w.b, font.ParseWOFF2)
			want := woff2Tables(f.tables)
			transformed, hmtx := false, 0
			for _, e := range w.entries {
				if e.tag == "glyf" && e.transform == 0 {
					transformed = true
				}
				if e.tag == "hmtx" && e.transform == 1 {
					hmtx = int(e.data[0])
				}
			}
			if !transformed {
				k.sfntEquals(out, f.version(), want, "ParseWOFF2")
			} else {
				d, err := refDirectory(out)
				if err != nil {
					k.failf("the result is not a well-formed SFNT: %v", err)
				}
				if d.version != f.version() {
					k.failf("version %q, expected %q", d.version, f.version())
				}
				got := d.tables()
				if err := f.sameTrueType(got); err != nil {
					k.failf("%v", err)
				}
				rest := map[string][]byte{}
				for tag, b := range got {
					if tag != "glyf" && tag != "loca" {
						rest[tag] = b
					}
				}
				delete(want, "glyf")
				delete(want, "loca")
				if err := sameTables(rest, want, false); err != nil {
					k.failf("%v", err)
				}
				k.classIf(w.overlap, "overlap bitmap")
				k.classIf(0 < w.explicit, "explicit boxes")
				k.class("glyphs mod 32 = 0: %v", f.N()%32 == 0)
				for t := range w.triplets {
					k.class("triplet %d", t)
				}
			}
			k.class("hmtx flags %d", hmtx)
			// the same queries give the same answers
			t := map[string][]byte{}
			for tag, x := range f.tables {
				t[tag] = x
			}
			s, s2 := k.mustParse(b, "original"), k.mustParse(w.b, "woff2")
			n := min(f.N(), 40)
			k.sameObs(observe(s, n), observe(s2, n), "original and unwrapped font")
			if 0 < len(w.triplets) {
				k.nontrivial(w.b, func() string {
					return fmt.Sprintf("%s; %d bytes, %d explicit boxes, %d triplet classes, hmtx flags %d, brotli %d", f, len(w.b), w.explicit, len(w.triplets), hmtx, w.quality)
				})
			}
		})
	})
}

func TestP09(t *testing.T) {
	run(t, "P09", "every case is a valid file with one fault; distinct by file", func(c *Ctx) {
		c.check("fault", c.n(6000, 80000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 4, NoKern: true})
			f.bytes(k)
			w := k.genWOFF2(f)
			k.decodeOK("ParseWOFF2", w.b, font.ParseWOFF2)
			b, why := k.corruptWOFF2(w)
			if b == nil {
				return
			}
			k.class("%s", why)
			k.decodeFails("ParseWOFF2", why, b, font.ParseWOFF2)
			k.nontrivial(b, func() string { return fmt.Sprintf("%s in %d bytes, %d tables", why, len(b), len(w.entries)) })
		})
	})
}

// corruptWOFF2 makes one fault of the kinds that must be rejected; it returns nil when the drawn
// fault does not apply.
func (k *Case) corruptWOFF2(w *woff2File) (b []byte, why string) {
	b = append([]byte{}, w.b...)
	be := binary.BigEndian
	find := func(tag string) *woff2Entry {
		for _, e := range w.entries {
			if e.tag == tag {
				return e
			}
		}
		return nil
	}
	glyf, loca, hmtx := find("glyf"), find("loca"), find("hmtx")
	rebuild := func(edit func(o *woff2File)) []byte {
		o := *w
		o.entries = nil
		for _, e := range w.entries {
			x := *e
			o.entries = append(o.entries, &x)
		}
		edit(&o)
		k.encodeWOFF2(&o, k.rng())
		return o.b
	}
	// spliceVar replaces bytes of the directory by others
	splice := func(at, n int, with []byte) []byte {
		c := append(append(append([]byte{}, b[:at]...), with...), b[at+n:]...)
		be.PutUint32(c[8:], uint32(len(c)))
		return c
	}
	e := w.entries[k.U(len(w.entries))]
	sizeAt := e.dirOffset + 1
	if e.longTag {
		sizeAt += 4
	}
	varLen := func(at int) int {
		n := 1
		for b[at+n-1]&0x80 != 0 {
			n++
		}
		return n
	}
	switch k.U(19) {
	case 0:
		b[k.U(4)] ^= byte(1 + k.U(255))
		return b, "another signature"
	case 1:
		if k.B() {
			return append(b, make([]byte, 1+k.U(8))...), "a length field smaller than the file"
		}
		be.PutUint32(b[8:], uint32(len(b)+pick(k, 1, -1, 4, -4, 1<<20)))
		return b, "a wrong length field"
	case 2:
		b[14+k.U(2)] = byte(1 + k.U(255))
		return b, "a non-zero reserved field"
	case 3:
		be.PutUint16(b[12:], 0)
		return b, "zero tables"
	case 4:
		// the directory then ends inside the stream or the stream starts inside the directory
		n := len(w.entries)
		be.PutUint16(b[12:], uint16(pick(k, n-1, n-1-k.U(n))))
		if be16(b, 12) == n || be16(b, 12) == 0 {
			return nil, ""
		}
		return b, "a wrong table count"
	case 5:
		n := varLen(sizeAt)
		return splice(sizeAt, n, append([]byte{0x80}, b[sizeAt:sizeAt+n]...)), "a length with a leading zero"
	case 6:
		n := varLen(sizeAt)
		return splice(sizeAt, n, []byte{0x81 + byte(k.U(100)), 0x80, 0x80, 0x80, 0x80, 0x00}), "a length of more than five bytes"
	case 7:
		n := varLen(sizeAt)
		return splice(sizeAt, n, []byte{0x90 + byte(k.U(0x60)), 0xFF, 0xFF, 0xFF, 0x7F}), "a length of more than 32 bits"
	case 8: // only one of glyf and loca is transformed
		if glyf == nil {
			return nil, ""
		}
		return rebuild(func(o *woff2File) {
			x := glyf
			if k.B() {
				x = loca
			}
			for _, e := range o.entries {
				if e.tag == x.tag {
					e.transform ^= 3
				}
			}
		}), "glyf and loca not transformed alike"
	case 9:
		if glyf == nil {
			return nil, ""
		}
		drop := pick(k, "glyf", "loca")
		return rebuild(func(o *woff2File) {
			var es []*woff2Entry
			for _, e := range o.entries {
				if e.tag != drop {
					es = append(es, e)
				}
			}
			o.entries = es
		}), "no " + drop + " table"
	case 10:
		v := 1 + k.U(3)
		if (e == glyf || e == loca) && v == 3 || e == hmtx && v == 1 {
			return nil, ""
		}
		if e == glyf || e == loca {
			other := glyf
			if e == glyf {
				other = loca
			}
			// both have the illegal version
			return rebuild(func(o *woff2File) {
				for _, x := range o.entries {
					if x.tag == e.tag || x.tag == other.tag {
						x.transform = v
					}
				}
			}), "an illegal transform"
		}
		return rebuild(func(o *woff2File) {
			for _, x := range o.entries {
				if x.tag == e.tag {
					x.transform = v
				}
			}
		}), "an illegal transform"
	case 11:
		if e == glyf || e == loca {
			return nil, ""
		}
		long := k.B()
		return rebuild(func(o *woff2File) {
			x := *e
			x.longTag = x.longTag || long
			if k.B() {
				x.data, x.orig, x.transform = nil, 0, 0
			}
			i := k.U(len(o.entries) + 1)
			if 0 < i && o.entries[i-1].tag == "glyf" {
				i--
			}
			o.entries = append(o.entries[:i:i], append([]*woff2Entry{&x}, o.entries[i:]...)...)
		}), "a table listed twice"
	case 12: // the stream ends early
		n := 1 + k.U(min(20, len(w.stream)-1))
		be.PutUint32(b[20:], uint32(len(w.stream)-n))
		return b, "a truncated stream"
	case 13: // damage it
		at := w.streamOff + k.U(len(w.stream))
		b[at] ^= byte(1 + k.U(255))
		sum := 0
		for _, e := range w.entries {
			sum += len(e.data)
		}
		d, err := brotliDecode(b[w.streamOff:w.streamOff+len(w.stream)], sum+1)
		if err == nil && len(d) == sum {
			return nil, "" // still decodes; nothing in the format tells
		}
		return b, "a damaged stream"
	case 14: // the glyph transform's own sizes
		if glyf == nil || glyf.transform != 0 {
			return nil, ""
		}
		why := ""
		c := rebuild(func(o *woff2File) {
			for i, x := range o.entries {
				if x.tag != "glyf" {
					continue
				}
				d := append([]byte{}, x.data...)
				o.entries[i].data = d
				n := len(d)
				switch k.U(4) {
				case 0:
					at := 8 + 4*k.U(7)
					be.PutUint32(d[at:], uint32(pick(k, n, n-36+1, math.MaxUint32, 1<<31)))
					why = "a glyph stream that is too large"
				case 1:
					be.PutUint16(d[4:], uint16(be16(d, 4)+pick(k, 1, -1, 31, 32)))
					why = "glyph data of another number of glyphs"
				case 2:
					o.entries[i].data = d[:k.U(n-1)+1]
					why = "glyph data that ends early"
				case 3:
					be.PutUint32(d[28:], uint32(k.U(((be16(d, 4)+31)/32)*4)))
					why = "a bounding box stream smaller than its bitmap"
				}
			}
		})
		if why == "" {
			return nil, ""
		}
		return c, why
	case 15:
		if glyf == nil || glyf.transform != 0 {
			return nil, ""
		}
		return rebuild(func(o *woff2File) {
			for _, x := range o.entries {
				if x.tag == "loca" {
					x.orig += pick(k, 1, 2, 4, -1, -2, x.orig, 1<<30)
				}
			}
		}), "glyph locations of another length"
	default: // lengths that do not add up to the stream's size
		at, v := sizeAt, e.orig
		if e == loca && loca.transform == 0 {
			// always reconstructed, so only its transformed size matters, which must be zero
			at, v = sizeAt+varLen(sizeAt), 0
		} else if e == glyf && glyf.transform == 0 || e == hmtx && hmtx.transform == 1 {
			at, v = sizeAt+varLen(sizeAt), len(e.data)
		}
		v += pick(k, 1, -1, 2, 3, 4, -4, 100, 1<<16, 1<<28, -v)
		if v < 0 || v == 0 && len(e.data) == 0 {
			return nil, ""
		}
		var n W
		n.base128(uint32(v))
		return splice(at, varLen(at), n.b), "lengths that do not add up to the size of the data"
	}
}

func TestP11(t *testing.T) {
	run(t, "P11", "obfuscated, or with non-empty variable fields; distinct by file", func(c *Ctx) {
		c.check("eot", c.n(2000, 30000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 6, HugeN: 1})
			k.bigExtra(f)
			b := f.bytes(k)
			e := k.genEOT(b)
			k.artifact("eot", e.b)
			out := k.decodeOK("ParseEOT", e.b, font.ParseEOT)
			if !bytes.Equal(out, b) {
				k.failf("ParseEOT: %s", diffBytes(out, b))
			}
			out = k.decodeOK("ToSFNT", e.b, font.ToSFNT)
			if !bytes.Equal(out, b) {
				k.failf("ToSFNT: %s", diffBytes(out, b))
			}
			k.class("version %08x", e.version)
			k.classIf(e.flags&0x10000000 != 0, "XOR")
			if e.flags&0x10000000 != 0 || 120 < e.fontOff {
				k.nontrivial(e.b, func() string {
					return fmt.Sprintf("version %08x flags %08x header %d bytes, font %d bytes", e.version, e.flags, e.fontOff, len(b))
				})
			}
		})
		c.check("blob", c.n(1500, 20000), func(k *Case) {
			// the wrapped data is opaque
			n := pick(k, 12, 0, 1, 4, 100, 1000)
			b := k.blob(n)
			if k.P(2) {
				b = k.bigBlob()
			}
			e := k.genEOT(b)
			k.artifact("eot", e.b)
			out := k.decodeOK("ParseEOT", e.b, font.ParseEOT)
			if !bytes.Equal(out, b) {
				k.failf("ParseEOT: %s", diffBytes(out, b))
			}
			if e.flags&0x10000000 != 0 && 0 < n {
				k.nontrivial(e.b, func() string { return fmt.Sprintf("%d bytes obfuscated", n) })
			}
		})
		c.check("fault", c.n(4000, 50000), func(k *Case) {
			b := k.blob(pick(k, 12, 1, 40, 4))
			e := k.genEOT(b)
			c := append([]byte{}, e.b...)
			le := binary.LittleEndian
			why := ""
			switch k.U(7) {
			case 0:
				c[34+k.U(2)] ^= byte(1 + k.U(255))
				why = "another magic number"
			case 1:
				v := pick(k, uint32(0), 0x00020000, 0x00030001, 0x00010001, 0x01000000, 0x00020003, uint32(k.U(1<<31)))
				if v == 0x00010000 || v == 0x00020001 || v == 0x00020002 {
					return
				}
				le.PutUint32(c[8:], v)
				why = "an unknown version"
			case 2:
				le.PutUint32(c[12:], e.flags|4)
				why = "compression"
			case 3:
				n := len(b) + pick(k, 1, 2, 100, 1<<20, math.MaxInt32-len(b), math.MaxUint32-len(b))
				le.PutUint32(c[4:], uint32(n))
				why = "a font data size beyond the file"
			case 4:
				i := e.varOffs[k.U(len(e.varOffs))]
				room := len(c) - i - 2
				if 65535 <= room {
					return
				}
				le.PutUint16(c[i:], uint16(pick(k, 65535, room+1, min(65535, room+100))))
				why = "a field size beyond the file"
			case 5:
				if e.eudcOff == 0 {
					return
				}
				le.PutUint32(c[e.eudcOff:], uint32(pick(k, math.MaxUint32, len(c)-e.eudcOff-4+1, 1<<31)))
				why = "an EUDC font size beyond the file"
			case 6:
				n := k.U(len(c))
				c = c[:n]
				why = "missing data at its end"
			}
			k.class("%s", why)
			k.decodeFails("ParseEOT", why, c, font.ParseEOT)
			k.nontrivial(c, func() string { return fmt.Sprintf("%s, version %08x, %d bytes", why, e.version, len(c)) })
		})
	})
}

func TestP10(t *testing.T) {
	run(t, "P10", "a TrueType font with at least one non-empty glyph; distinct by font file", func(c *Ctx) {
		c.check("write", c.n(1200, 20000), func(k *Case) {
			f := k.genFont(FontOpt{BigN: true, HugeN: 1, Wide: true})
			k.bigExtra(f)
			if !f.CFF && k.P(30) {
				for i, g := range f.Glyphs {
					if (i < f.NHM) == (f.NHM%2 == 0) {
						g.LSB = 0
						if !g.isEmpty() {
							g.LSB = g.BBox[0]
						}
					}
				}
			}
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			k.checkWOFF2(s, f, f.tables)
			k.classIf(f.CFF, "CFF")
			k.class("glyphs mod 32 = 0: %v", f.N()%32 == 0)
			some := false
			for _, g := range f.Glyphs {
				some = some || !g.isEmpty()
			}
			if !f.CFF && some {
				k.nontrivial(b, f.String)
			}
		})
	})
}

// checkWOFF2 writes a font as WOFF2 and reads it back with the reference decoder and the library.
func (k *Case) checkWOFF2(s *font.SFNT, f *Font, tables map[string][]byte) {
	k.Helper()
	var out []byte
	var err error
	k.guard("WriteWOFF2", func() { out, err = s.WriteWOFF2() })
	if err != nil {
		k.failf("WriteWOFF2: %v", err)
	}
	k.artifact("woff2", out)
	if err := sameTables(s.Tables, tables, false); err != nil {
		k.failf("WriteWOFF2 changed the font: %v", err)
	}
	o, err := readWOFF2(out)
	if err != nil {
		k.failf("the written WOFF2 file is malformed: %v", err)
	}
	if o.version != f.version() {
		k.failf("flavour %q, expected %q", o.version, f.version())
	}
	want := woff2Tables(tables)
	if o.glyphs != nil {
		if len(o.glyphs) != f.N() {
			k.failf("%d glyphs written, expected %d", len(o.glyphs), f.N())
		}
		for i, g := range f.Glyphs {
			if err := sameGlyph(o.glyphs[i], g, sameGID); err != nil {
				k.failf("written glyph %d: %v", i, err)
			}
		}
		delete(want, "glyf")
		delete(want, "loca")
	}
	if o.hmtxAdv != nil {
		w := &W{}
		for i := range f.Glyphs {
			if i < len(o.hmtxAdv) {
				w.u16(o.hmtxAdv[i])
			}
			w.u16(o.hmtxLSB[i])
		}
		o.tables["hmtx"] = w.b
	}
	if err := sameTables(o.tables, want, false); err != nil {
		k.failf("written: %v", err)
	}
	// the library's own decoder
	back := k.decodeOK("ParseWOFF2", out, font.ParseWOFF2)
	d, err := refDirectory(back)
	if err != nil {
		k.failf("decoded again: not a well-formed SFNT: %v", err)
	}
	got := d.tables()
	if o.glyphs != nil {
		if err := f.sameTrueType(got); err != nil {
			k.failf("decoded again: %v", err)
		}
		delete(got, "glyf")
		delete(got, "loca")
	}
	if err := sameTables(got, want, false); err != nil {
		k.failf("decoded again: %v", err)
	}
}

func TestP12(t *testing.T) {
	run(t, "P12", "a font in one of the container formats, or bytes that start like one; distinct by file", func(c *Ctx) {
		c.check("sniff", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 6})
			if k.P(3) {
				// a large file
				big := make([]byte, 1<<uint(14+k.U(8))+k.U(100000))
				x := uint32(k.U(1<<31)) | 1
				for i := 0; i < len(big)/2; i++ {
					x ^= x << 13
					x ^= x >> 17
					x ^= x << 5
					big[i] = byte(x)
				}
				f.Extra["zzzz"] = big
			}
			b := f.bytes(k)
			file := b
			mime, ext := "font/truetype", ".ttf"
			if f.CFF {
				mime, ext = "font/opentype", ".otf"
			}
			exact := true // the wrapped bytes come out exactly
			kind := pick(k, "sfnt", "woff", "woff2", "eot", "ttc")
			switch kind {
			case "woff":
				file, mime, ext, exact = k.genWOFF(f.version(), f.tables).b, "font/woff", ".woff", false
			case "woff2":
				file, mime, ext, exact = k.genWOFF2(f).b, "font/woff2", ".woff2", false
			case "eot":
				file, mime, ext = k.genEOT(b).b, "application/vnd.ms-fontobject", ".eot"
			case "ttc":
				file, _, _ = k.genCollection([]*Font{f})
				b = file
				mime, ext = "font/truetype", ".ttf"
			}
			k.artifact("file", file)
			keep := append([]byte{}, file...)
			var gm, ge string
			var err error
			k.guard("MediaType", func() { gm, err = font.MediaType(file) })
			if err != nil || gm != mime {
				k.failf("media type of %s is %q, %v", kind, gm, err)
			}
			k.guard("Extension", func() { ge = font.Extension(file) })
			if ge != ext {
				k.failf("extension of %s is %q, expected %q", kind, ge, ext)
			}
			var norm, read []byte
			k.guard("ToSFNT", func() { norm, err = font.ToSFNT(file) })
			if err != nil {
				k.failf("ToSFNT(%s): %v", kind, err)
			}
			if exact && !bytes.Equal(norm, b) {
				k.failf("ToSFNT(%s): %s", kind, diffBytes(norm, b))
			}
			k.guard("NewSFNTReader", func() {
				r, e := font.NewSFNTReader(&slowReader{b: file, n: 1 + k.U(5000)})
				if err = e; e == nil {
					read = make([]byte, r.Len())
					r.Read(read)
				}
			})
			if err != nil || !bytes.Equal(read, norm) {
				k.failf("NewSFNTReader(%s): %v, %s", kind, err, diffBytes(read, norm))
			}
			s, s2 := k.mustParse(file, kind), k.mustParse(norm, "normalised")
			if err := sameTables(s.Tables, s2.Tables, false); err != nil {
				k.failf("ParseSFNT(%s) and of the normalised file: %v", kind, err)
			}
			s3 := k.mustParse(b, "original")
			k.sameObs(observe(s, f.N()), observe(s3, f.N()), kind+" and the font inside")
			if s.IsCFF != f.CFF || s.IsTrueType == f.CFF {
				k.failf("%s: CFF=%v TrueType=%v", kind, s.IsCFF, s.IsTrueType)
			}
			if !bytes.Equal(file, keep) {
				k.failf("the input file was changed")
			}
			k.class("%s", kind)
			k.nontrivial(file, func() string { return fmt.Sprintf("%s of %s", kind, f) })
		})
		c.check("unknown", c.n(4000, 50000), func(k *Case) {
			var b []byte
			switch k.U(4) {
			case 0:
				b = k.blob(k.U(5))
			case 1:
				b = k.blob(k.U(100))
			case 2:
				b = []byte(pick(k, "wOFF", "wOF2", "OTTO", "true", "ttcf", "\x00\x01\x00\x00", "typ1", "%!PS", "<svg", "PK\x03\x04", "\x89PNG"))
				if k.B() {
					b[k.U(4)] ^= byte(1 << k.U(8))
				}
				b = append(b, k.blob(k.U(100))...)
				b = b[:k.U(len(b)+1)]
			case 3:
				b = k.blob(30 + k.U(20))
				if 36 <= len(b) {
					b[34], b[35] = 0x4C, 0x50
				}
			}
			known := ""
			if 4 <= len(b) {
				switch string(b[:4]) {
				case "wOFF":
					known = "font/woff"
				case "wOF2":
					known = "font/woff2"
				case "OTTO":
					known = "font/opentype"
				case "true", "\x00\x01\x00\x00", "ttcf":
					known = "font/truetype"
				default:
					if 36 < len(b) && b[34] == 0x4C && b[35] == 0x50 {
						known = "application/vnd.ms-fontobject"
					}
				}
			}
			k.artifact("bytes", b)
			var mime, ext string
			var err, err2, err3, err4 error
			k.guard("MediaType", func() { mime, err = font.MediaType(b) })
			k.guard("Extension", func() { ext = font.Extension(b) })
			k.guard("ToSFNT", func() { _, err2 = font.ToSFNT(b) })
			k.guard("NewSFNTReader", func() { _, err3 = font.NewSFNTReader(bytes.NewReader(b)) })
			k.guard("ParseSFNT", func() { _, err4 = font.ParseSFNT(b, 0) })
			if err4 == nil {
				k.failf("%d bytes are accepted as a font", len(b))
			}
			if known == "" && !(len(b) == 36 && b[34] == 0x4C) {
				if err == nil || ext != "" || err2 == nil || err3 == nil {
					k.failf("unknown data: media type %q %v, extension %q, ToSFNT %v, NewSFNTReader %v", mime, err, ext, err2, err3)
				}
			} else if known != "" && (err != nil || mime != known || ext == "") {
				k.failf("media type %q %v, expected %q; extension %q", mime, err, known, ext)
			}
			k.class("%q", known)
			if known != "" {
				k.nontrivial(b, func() string { return fmt.Sprintf("%s: %d bytes [% x]", known, len(b), b[:min(12, len(b))]) })
			}
		})
	})
}

// slowReader hands out a file in pieces.
type slowReader struct {
	b []byte
	n int
}

func (r *slowReader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, errEOF
	}
	n := copy(p, r.b[:min(r.n, len(r.b))])
	r.b = r.b[n:]
	return n, nil
}
