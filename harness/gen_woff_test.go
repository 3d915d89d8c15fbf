package harness

// Encoders for WOFF, WOFF2 and EOT files.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/andybalholm/brotli"
)

// ---- WOFF ----

type woffEntry struct {
	tag       string
	data      []byte // as stored
	off       int
	orig      int
	sum       uint32
	comp      bool
	dirOffset int // position of the entry in the file
}

type woffFile struct {
	version string
	entries []*woffEntry // in directory order
	b       []byte
	meta    bool
	priv    bool
	total   int
}

func deflate(r *rng, b []byte) []byte {
	var buf bytes.Buffer
	w, err := zlib.NewWriterLevel(&buf, []int{9, 6, 1, 5, -2, 2}[r.n(6)])
	if err != nil {
		panic(err)
	}
	if 8 < len(b) && r.p(20) {
		i := r.n(len(b))
		w.Write(b[:i])
		w.Flush()
		w.Write(b[i:])
	} else {
		w.Write(b)
	}
	w.Close()
	return buf.Bytes()
}

// genWOFF wraps tables (as stored in an SFNT file).
func (k *Case) genWOFF(version string, tables map[string][]byte) *woffFile {
	f := &woffFile{version: version, total: 12 + 16*len(tables)}
	r := k.rng()
	mode := k.U(3) // 0 compress what shrinks, 1 nothing, 2 random
	for _, tag := range sortedTags(tables) {
		b := tables[tag]
		e := &woffEntry{tag: tag, data: b, orig: len(b)}
		t := append([]byte{}, b...)
		if tag == "head" && 12 <= len(b) {
			copy(t[8:12], []byte{0, 0, 0, 0})
		}
		e.sum = checksum(t)
		if mode == 0 || mode == 2 && r.p(60) {
			if z := deflate(r, b); len(z) < len(b) {
				e.data, e.comp = z, true
			}
		}
		f.total += (len(b) + 3) &^ 3
		f.entries = append(f.entries, e)
	}
	order := append([]*woffEntry{}, f.entries...)
	if k.B() {
		for i := len(order) - 1; 0 < i; i-- {
			j := r.n(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	off := 44 + 20*len(f.entries)
	for _, e := range order {
		e.off = off
		off = (off + len(e.data) + 3) &^ 3
	}
	var meta, priv []byte
	metaOrig, metaOff, privOff := 0, 0, 0
	if k.P(25) {
		m := []byte("<?xml version=\"1.0\" encoding=\"UTF-8\"?><metadata version=\"1.0\"></metadata>")
		meta, metaOrig, metaOff = deflate(r, m), len(m), off
		f.meta = true
		off += len(meta)
	}
	if k.P(25) {
		off = (off + 3) &^ 3
		priv, privOff = k.blob(k.I(1, 30)), off
		f.priv = true
		off += len(priv)
	}
	w := &W{}
	w.str("wOFF")
	w.str(version)
	w.u32(uint32(off))
	w.u16(len(f.entries))
	w.u16(0)
	w.u32(uint32(f.total))
	w.u16(r.n(5))
	w.u16(r.n(5))
	w.u32(uint32(metaOff))
	w.u32(uint32(len(meta)))
	w.u32(uint32(metaOrig))
	w.u32(uint32(privOff))
	w.u32(uint32(len(priv)))
	for _, e := range f.entries {
		e.dirOffset = len(w.b)
		w.str(e.tag)
		w.u32(uint32(e.off))
		w.u32(uint32(len(e.data)))
		w.u32(uint32(e.orig))
		w.u32(e.sum)
	}
	for _, e := range order {
		w.bytes(e.data)
		w.pad(4)
	}
	if meta != nil {
		w.bytes(meta)
	}
	if priv != nil {
		w.pad(4)
		w.bytes(priv)
	}
	f.b = w.b
	if len(w.b) != off {
		panic(fmt.Sprintf("WOFF encoder: %d bytes, expected %d", len(w.b), off))
	}
	return f
}

// ---- WOFF2 ----

func (w *W) base128(v uint32) {
	for i := 4; 0 <= i; i-- {
		if i == 0 || v>>(7*i) != 0 {
			c := byte(v >> (7 * i) & 0x7F)
			if i != 0 {
				c |= 0x80
			}
			w.b = append(w.b, c)
		}
	}
}

// u255 writes a 255UInt16 in any of its encodings.
func (w *W) u255(r *rng, v int) {
	var opts []int
	if v < 253 {
		opts = append(opts, 0, 0, 0)
	}
	if 253 <= v && v < 253+256 {
		opts = append(opts, 255, 255)
	}
	if 506 <= v && v < 506+256 {
		opts = append(opts, 254, 254)
	}
	opts = append(opts, 253)
	switch opts[r.n(len(opts))] {
	case 0:
		w.u8(v)
	case 255:
		w.u8(255)
		w.u8(v - 253)
	case 254:
		w.u8(254)
		w.u8(v - 506)
	case 253:
		w.u8(253)
		w.u16(v)
	}
}

// triplet writes one point; it picks the shortest class or any other possible one.
func triplet(r *rng, flags, glyphs *W, dx, dy int, on bool, any bool) int {
	ax, ay := dx, dy
	sx, sy := 1, 1
	if dx < 0 || dx == 0 && r.p(50) {
		ax, sx = -dx, 0
	}
	if dy < 0 || dy == 0 && r.p(50) {
		ay, sy = -dy, 0
	}
	var opts []int
	if dx == 0 && ay < 1280 {
		opts = append(opts, 0)
	}
	if dy == 0 && ax < 1280 {
		opts = append(opts, 1)
	}
	if 1 <= ax && ax <= 64 && 1 <= ay && ay <= 64 {
		opts = append(opts, 2)
	}
	if 1 <= ax && ax <= 768 && 1 <= ay && ay <= 768 {
		opts = append(opts, 3)
	}
	if ax < 4096 && ay < 4096 {
		opts = append(opts, 4)
	}
	opts = append(opts, 5)
	o := opts[0]
	if any {
		o = opts[r.n(len(opts))]
	}
	fl := 0
	switch o {
	case 0:
		fl = ay>>8<<1 | sy
		glyphs.u8(ay)
	case 1:
		fl = 10 + (ax>>8<<1 | sx)
		glyphs.u8(ax)
	case 2:
		fl = 20 + (ax-1)>>4*16 + (ay-1)>>4*4 + sy<<1 + sx
		glyphs.u8((ax-1)&15<<4 | (ay-1)&15)
	case 3:
		fl = 84 + (ax-1)>>8*12 + (ay-1)>>8*4 + sy<<1 + sx
		glyphs.u8(ax - 1)
		glyphs.u8(ay - 1)
	case 4:
		fl = 120 + sy<<1 + sx
		glyphs.u8(ax >> 4)
		glyphs.u8(ax&15<<4 | ay>>8)
		glyphs.u8(ay)
	case 5:
		fl = 124 + sy<<1 + sx
		glyphs.u16(ax)
		glyphs.u16(ay)
	}
	if !on {
		fl |= 0x80
	}
	flags.u8(fl)
	return fl & 0x7F
}

type woff2Opt struct {
	rawGlyf bool
	hmtx    int // transform flags, 0 for none
}

type woff2Entry struct {
	tag       string
	transform int
	orig      int
	data      []byte // uncompressed, as transformed
	longTag   bool
	dirOffset int
}

type woff2File struct {
	version    string
	entries    []*woff2Entry
	b          []byte
	stream     []byte // compressed
	streamOff  int
	triplets   map[int]bool
	explicit   int
	overlap    bool
	quality    int
	meta, priv bool
}

func (f *Font) pointBox(g *Glyph) [4]int {
	b := [4]int{}
	first := true
	for _, c := range g.Contours {
		for _, p := range c {
			if first {
				b = [4]int{p.X, p.Y, p.X, p.Y}
				first = false
			}
			b = [4]int{min(b[0], p.X), min(b[1], p.Y), max(b[2], p.X), max(b[3], p.Y)}
		}
	}
	return b
}

// transformGlyf encodes the glyph table as WOFF2 does.
func (f *Font) transformGlyf(r *rng, any bool, o *woff2File) []byte {
	n := f.N()
	var nc, np, fl, gs, cs, bs, is W
	bitmap := make([]byte, (n+31)/32*4)
	overlap := make([]byte, len(bitmap))
	for i, g := range f.Glyphs {
		if g.isEmpty() {
			nc.u16(0)
			continue
		}
		explicit := false
		if 0 < len(g.Comps) {
			nc.u16(-1)
			// components are stored as in the glyph table
			d := g.data[10:]
			hasInstr := false
			p := 0
			for {
				flags := be16(d, p)
				size := 6
				if flags&1 != 0 {
					size += 2
				}
				switch {
				case flags&0x08 != 0:
					size += 2
				case flags&0x40 != 0:
					size += 4
				case flags&0x80 != 0:
					size += 8
				}
				hasInstr = hasInstr || flags&0x100 != 0
				p += size
				if flags&0x20 == 0 {
					break
				}
			}
			cs.bytes(d[:p])
			if hasInstr {
				gs.u255(r, len(g.Instr))
				is.bytes(g.Instr)
			}
			explicit = true
		} else {
			nc.u16(len(g.Contours))
			px, py := 0, 0
			for _, c := range g.Contours {
				np.u255(r, len(c))
				for _, p := range c {
					t := triplet(r, &fl, &gs, p.X-px, p.Y-py, p.On, any)
					o.triplets[t] = true
					px, py = p.X, p.Y
				}
			}
			gs.u255(r, len(g.Instr))
			is.bytes(g.Instr)
			if g.Overlap {
				overlap[i>>3] |= 0x80 >> (i & 7)
				o.overlap = true
			}
			explicit = g.BBox != f.pointBox(g) || r.p(4)
		}
		if explicit {
			o.explicit++
			bitmap[i>>3] |= 0x80 >> (i & 7)
			for _, v := range g.BBox {
				bs.u16(v)
			}
		}
	}
	w := &W{}
	w.u16(0)
	if o.overlap = o.overlap || r.p(10); o.overlap {
		w.u16(1)
	} else {
		w.u16(0)
	}
	w.u16(n)
	w.u16(f.LocaFmt)
	for _, s := range []*W{&nc, &np, &fl, &gs, &cs} {
		w.u32(uint32(len(s.b)))
	}
	w.u32(uint32(len(bitmap) + len(bs.b)))
	w.u32(uint32(len(is.b)))
	for _, s := range []*W{&nc, &np, &fl, &gs, &cs} {
		w.bytes(s.b)
	}
	w.bytes(bitmap)
	w.bytes(bs.b)
	w.bytes(is.b)
	if o.overlap {
		w.bytes(overlap)
	}
	return w.b
}

// hmtxElide tells which of the side bearing arrays can be reconstructed.
func (f *Font) hmtxElide() int {
	flags := 3
	for i, g := range f.Glyphs {
		x := 0
		if !g.isEmpty() {
			x = g.BBox[0]
		}
		if int(int16(g.LSB)) != x {
			if i < f.NHM {
				flags &^= 1
			} else {
				flags &^= 2
			}
		}
	}
	return flags
}

func (f *Font) transformHmtx(flags int) []byte {
	w := &W{}
	w.u8(flags)
	for _, g := range f.Glyphs[:f.NHM] {
		w.u16(g.Adv)
	}
	if flags&1 == 0 {
		for _, g := range f.Glyphs[:f.NHM] {
			w.u16(g.LSB)
		}
	}
	if flags&2 == 0 {
		for _, g := range f.Glyphs[f.NHM:] {
			w.u16(g.LSB)
		}
	}
	return w.b
}

// woff2Tables returns the tables as a WOFF2 file carries them: no signature, head bit 11 set.
func woff2Tables(tables map[string][]byte) map[string][]byte {
	t := map[string][]byte{}
	for tag, b := range tables {
		if tag == "DSIG" {
			continue
		}
		if tag == "head" && 18 <= len(b) {
			b = append([]byte{}, b...)
			b[16] |= 0x08
		}
		t[tag] = b
	}
	return t
}

// genWOFF2 wraps the font, whose tables were encoded before.
func (k *Case) genWOFF2(f *Font) *woff2File {
	o := &woff2File{version: f.version(), triplets: map[int]bool{}}
	r := k.rng()
	any := k.B()
	tables := woff2Tables(f.tables)
	raw := k.P(15)
	tags := sortedTags(tables)
	if k.P(30) {
		tags = k.shuffle(tags)
	}
	// loca directly follows glyf
	var order []string
	for _, tag := range tags {
		if tag != "loca" {
			order = append(order, tag)
		}
		if tag == "glyf" {
			order = append(order, "loca")
		}
	}
	for _, tag := range order {
		e := &woff2Entry{tag: tag, data: tables[tag], orig: len(tables[tag]), longTag: woff2Index(tag) < 0 || r.p(3)}
		switch {
		case tag == "glyf" && !raw:
			e.data = f.transformGlyf(r, any, o)
		case tag == "loca" && !raw:
			e.data = nil
		case tag == "glyf" || tag == "loca":
			e.transform = 3
		case tag == "hmtx" && !raw && !f.CFF:
			// one or both arrays are left out; a font without the second array may claim both
			can := f.hmtxElide()
			if can != 0 && k.P(85) {
				flags := can & pick(k, 3, 1, 2)
				if flags != 0 {
					e.transform = 1
					e.data = f.transformHmtx(flags)
				}
			}
		}
		o.entries = append(o.entries, e)
	}
	o.quality = pick(k, 2, 1, 0, 3, 4)
	if k.P(4) { // these take long
		o.quality = pick(k, 5, 9, 11)
	}
	if f.N() > 60 {
		o.quality = min(o.quality, 5)
	}
	k.encodeWOFF2(o, r)
	return o
}

func woff2Index(tag string) int {
	for i, t := range woff2Known {
		if t == tag {
			return i
		}
	}
	return -1
}

func brotliEncode(b []byte, quality int) []byte {
	var buf bytes.Buffer
	w := brotli.NewWriterLevel(&buf, quality)
	w.Write(b)
	w.Close()
	return buf.Bytes()
}

// encodeWOFF2 lays out the file from its entries.
func (k *Case) encodeWOFF2(o *woff2File, r *rng) {
	w := &W{}
	w.str("wOF2")
	w.str(o.version)
	total := 12 + 16*len(o.entries)
	var data []byte
	for _, e := range o.entries {
		total += (e.orig + 3) &^ 3
		data = append(data, e.data...)
	}
	w.u32(0) // length
	w.u16(len(o.entries))
	w.u16(0)
	w.u32(uint32(total))
	w.u32(0) // compressed size
	w.u16(r.n(3))
	w.u16(r.n(3))
	w.b = append(w.b, make([]byte, 20)...)
	for _, e := range o.entries {
		e.dirOffset = len(w.b)
		i := woff2Index(e.tag)
		if e.longTag {
			i = 63
		}
		w.u8(e.transform<<6 | i)
		if e.longTag {
			w.str(e.tag)
		}
		w.base128(uint32(e.orig))
		if (e.tag == "glyf" || e.tag == "loca") && e.transform == 0 || e.tag == "hmtx" && e.transform == 1 {
			w.base128(uint32(len(e.data)))
		}
	}
	o.stream = brotliEncode(data, o.quality)
	o.streamOff = len(w.b)
	w.bytes(o.stream)
	w.pad(4)
	be := binary.BigEndian
	if r.p(15) {
		m := []byte("<?xml version=\"1.0\" encoding=\"UTF-8\"?><metadata version=\"1.0\"></metadata>")
		z := brotliEncode(m, 5)
		be.PutUint32(w.b[28:], uint32(len(w.b)))
		be.PutUint32(w.b[32:], uint32(len(z)))
		be.PutUint32(w.b[36:], uint32(len(m)))
		w.bytes(z)
		o.meta = true
	}
	if r.p(15) {
		w.pad(4)
		be.PutUint32(w.b[40:], uint32(len(w.b)))
		be.PutUint32(w.b[44:], 9)
		w.bytes([]byte("priv data"))
		o.priv = true
	}
	be.PutUint32(w.b[8:], uint32(len(w.b)))
	be.PutUint32(w.b[20:], uint32(len(o.stream)))
	o.b = w.b
}

var woff2Known = []string{
	"cmap", "head", "hhea", "hmtx", "maxp", "name", "OS/2", "post", "cvt ", "fpgm", "glyf", "loca", "prep", "CFF ", "VORG", "EBDT",
	"EBLC", "gasp", "hdmx", "kern", "LTSH", "PCLT", "VDMX", "vhea", "vmtx", "BASE", "GDEF", "GPOS", "GSUB", "EBSC", "JSTF", "MATH",
	"CBDT", "CBLC", "COLR", "CPAL", "SVG ", "sbix", "acnt", "avar", "bdat", "bloc", "bsln", "cvar", "fdsc", "feat", "fmtx", "fvar",
	"gvar", "hsty", "just", "lcar", "mort", "morx", "opbd", "prop", "trak", "Zapf", "Silf", "Glat", "Gloc", "Feat", "Sill",
}

// ---- EOT ----

type eotFile struct {
	b       []byte
	version uint32
	flags   uint32
	fontOff int
	varOffs []int // positions of the 16-bit size fields
	eudcOff int   // position of the 32-bit size field, or 0
}

// genEOT wraps a font file.
func (k *Case) genEOT(font []byte) *eotFile {
	e := &eotFile{version: pick(k, uint32(0x00020001), 0x00010000, 0x00020002)}
	r := k.rng()
	if k.B() {
		e.flags |= 0x10000000 // XOR
	}
	e.flags |= uint32(r.n(2)) // subset
	if r.p(30) {
		e.flags |= 0x20 * uint32(r.n(8)) & 0xF0
	}
	var b []byte
	le := binary.LittleEndian
	u16 := func(v int) { b = le.AppendUint16(b, uint16(v)) }
	u32 := func(v uint32) { b = le.AppendUint32(b, v) }
	blob := func(n int) {
		for i := 0; i < n; i++ {
			b = append(b, byte(r.n(256)))
		}
	}
	field := func() {
		e.varOffs = append(e.varOffs, len(b))
		n := 2 * []int{0, 1, 7, 20, 300}[r.n(5)]
		u16(n)
		blob(n)
	}
	u32(0)
	u32(uint32(len(font)))
	u32(e.version)
	u32(e.flags)
	blob(10)
	b = append(b, 1, byte(r.n(2)))
	u32(uint32(100 * (1 + r.n(9))))
	u16(r.n(16))
	u16(0x504C)
	blob(24)
	adj := uint32(0)
	if h := findTable(font, "head"); 12 <= len(h) {
		adj = be32(h, 8)
	}
	u32(adj)
	b = append(b, make([]byte, 16)...)
	u16(0)
	field()
	u16(0)
	field()
	u16(0)
	field()
	u16(0)
	field()
	if e.version != 0x00010000 {
		u16(0)
		field()
	}
	if e.version == 0x00020002 {
		u32(uint32(r.n(1 << 30)))
		u32(uint32(r.n(70000)))
		u16(0)
		field()
		u32(0)
		e.eudcOff = len(b)
		n := []int{0, 0, 10, 1000}[r.n(4)]
		u32(uint32(n))
		blob(n)
	}
	e.fontOff = len(b)
	for _, c := range font {
		if e.flags&0x10000000 != 0 {
			c ^= 0x50
		}
		b = append(b, c)
	}
	le.PutUint32(b, uint32(len(b)))
	e.b = b
	return e
}

func findTable(b []byte, tag string) []byte {
	if len(b) < 12 {
		return nil
	}
	for i := 0; i < be16(b, 4) && 28+16*i <= len(b); i++ {
		p := 12 + 16*i
		if string(b[p:p+4]) == tag {
			o, n := be32(b, p+8), be32(b, p+12)
			if uint64(o)+uint64(n) <= uint64(len(b)) {
				return b[o : o+n]
			}
		}
	}
	return nil
}

// ---- reference reader for glyph tables ----

// refGlyph parses one glyph of a glyf table into its model.
func refGlyph(d []byte) (g *Glyph, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("glyph data of %d bytes ends early: %v", len(d), r)
		}
	}()
	g = &Glyph{data: d}
	if len(d) == 0 {
		return g, nil
	}
	n := bei16(d, 0)
	for i := range g.BBox {
		g.BBox[i] = bei16(d, 2+2*i)
	}
	p := 10
	if n < 0 {
		for {
			fl := be16(d, p)
			c := Comp{GID: be16(d, p+2), Flags: uint16(fl)}
			p += 4
			if fl&0x0002 == 0 {
				return nil, fmt.Errorf("component placed by points")
			}
			if fl&1 != 0 {
				c.Words = true
				c.DX, c.DY = bei16(d, p), bei16(d, p+2)
				p += 4
			} else {
				c.DX, c.DY = int(int8(d[p])), int(int8(d[p+1]))
				p += 2
			}
			switch {
			case fl&0x08 != 0:
				c.Kind = 1
				c.M[0] = bei16(d, p)
				p += 2
			case fl&0x40 != 0:
				c.Kind = 2
				c.M[0], c.M[3] = bei16(d, p), bei16(d, p+2)
				p += 4
			case fl&0x80 != 0:
				c.Kind = 3
				for j := range c.M {
					c.M[j] = bei16(d, p+2*j)
				}
				p += 8
			}
			g.HasInstr = g.HasInstr || fl&0x100 != 0
			g.Comps = append(g.Comps, c)
			if fl&0x20 == 0 {
				break
			}
		}
		if g.HasInstr {
			m := be16(d, p)
			g.Instr = d[p+2 : p+2+m]
			p += 2 + m
		}
	} else {
		var ends []int
		for i := 0; i < n; i++ {
			ends = append(ends, be16(d, p))
			p += 2
		}
		if n == 0 {
			g.ZeroConts = true
			return g, nil
		}
		m := be16(d, p)
		g.Instr = d[p+2 : p+2+m]
		p += 2 + m
		np := ends[n-1] + 1
		var flags []byte
		for len(flags) < np {
			f := d[p]
			p++
			flags = append(flags, f)
			if f&8 != 0 {
				for j := int(d[p]); 0 < j; j-- {
					flags = append(flags, f)
				}
				p++
			}
		}
		if len(flags) != np {
			return nil, fmt.Errorf("%d flags for %d points", len(flags), np)
		}
		g.Overlap = flags[0]&0x40 != 0
		read := func(short, same byte) (vs []int) {
			v := 0
			for _, f := range flags {
				switch {
				case f&short != 0 && f&same != 0:
					v += int(d[p])
					p++
				case f&short != 0:
					v -= int(d[p])
					p++
				case f&same == 0:
					v += bei16(d, p)
					p += 2
				}
				v = int(int16(v))
				vs = append(vs, v)
			}
			return
		}
		xs := read(0x02, 0x10)
		ys := read(0x04, 0x20)
		i := 0
		for _, e := range ends {
			if e < i {
				return nil, fmt.Errorf("contour ends %v", ends)
			}
			var c []Pt
			for ; i <= e; i++ {
				c = append(c, Pt{xs[i], ys[i], flags[i]&1 != 0})
			}
			g.Contours = append(g.Contours, c)
		}
	}
	for _, z := range d[p:] {
		if z != 0 {
			return nil, fmt.Errorf("%d bytes of garbage after the glyph", len(d)-p)
		}
	}
	return g, nil
}

// refGlyphs parses all glyphs of a font's tables.
func refGlyphs(t map[string][]byte) ([]*Glyph, error) {
	if len(t["head"]) != 54 || len(t["maxp"]) < 6 {
		return nil, fmt.Errorf("bad head or maxp table")
	}
	n := be16(t["maxp"], 4)
	loca, glyf := t["loca"], t["glyf"]
	size := 2 << be16(t["head"], 50)
	if len(loca) != size*(n+1) {
		return nil, fmt.Errorf("loca has %d bytes for %d glyphs of %d", len(loca), n, size)
	}
	at := func(i int) int {
		if size == 2 {
			return 2 * be16(loca, 2*i)
		}
		return int(be32(loca, 4*i))
	}
	var gl []*Glyph
	for i := 0; i < n; i++ {
		a, b := at(i), at(i+1)
		if b < a || len(glyf) < b {
			return nil, fmt.Errorf("glyph %d is at %d..%d of %d bytes", i, a, b, len(glyf))
		}
		g, err := refGlyph(glyf[a:b])
		if err != nil {
			return nil, fmt.Errorf("glyph %d: %v", i, err)
		}
		gl = append(gl, g)
	}
	return gl, nil
}

// sameGlyph compares everything a TrueType glyph says; gid maps component references.
func sameGlyph(got, want *Glyph, gid func(int) int) error {
	if want.isEmpty() {
		if !got.isEmpty() {
			return fmt.Errorf("is not empty")
		}
		return nil
	}
	if got.BBox != want.BBox {
		return fmt.Errorf("box %v, expected %v", got.BBox, want.BBox)
	}
	if !bytes.Equal(got.Instr, want.Instr) || got.HasInstr != want.HasInstr {
		return fmt.Errorf("instructions [% x] (%v), expected [% x] (%v)", got.Instr, got.HasInstr, want.Instr, want.HasInstr)
	}
	if len(got.Contours) != len(want.Contours) || len(got.Comps) != len(want.Comps) {
		return fmt.Errorf("%d contours and %d components, expected %d and %d", len(got.Contours), len(got.Comps), len(want.Contours), len(want.Comps))
	}
	for i, c := range want.Contours {
		if len(got.Contours[i]) != len(c) {
			return fmt.Errorf("contour %d has %d points, expected %d", i, len(got.Contours[i]), len(c))
		}
		for j, p := range c {
			if q := got.Contours[i][j]; q != p {
				return fmt.Errorf("contour %d point %d is %v, expected %v", i, j, q, p)
			}
		}
	}
	if got.Overlap != want.Overlap && 0 < len(want.Contours) {
		return fmt.Errorf("overlap flag %v, expected %v", got.Overlap, want.Overlap)
	}
	const keep = uint16(0x0004 | 0x0200 | 0x0400 | 0x0800 | 0x1000)
	for i, c := range want.Comps {
		d := got.Comps[i]
		if d.GID != gid(c.GID) {
			return fmt.Errorf("component %d is glyph %d, expected %d", i, d.GID, gid(c.GID))
		}
		if d.DX != c.DX || d.DY != c.DY || d.Flags&keep != c.Flags&keep || d.matrix() != c.matrix() {
			return fmt.Errorf("component %d is %+v, expected %+v", i, d, c)
		}
	}
	return nil
}

func sameGID(g int) int { return g }

// sameTrueType checks all glyphs of written tables against the model.
func (f *Font) sameTrueType(t map[string][]byte) error {
	gl, err := refGlyphs(t)
	if err != nil {
		return err
	}
	if len(gl) != f.N() {
		return fmt.Errorf("%d glyphs, expected %d", len(gl), f.N())
	}
	for i, g := range f.Glyphs {
		if err := sameGlyph(gl[i], g, sameGID); err != nil {
			return fmt.Errorf("glyph %d: %v", i, err)
		}
	}
	return nil
}

// ---- reference decoder for WOFF2 ----

type refWOFF2 struct {
	version string
	tables  map[string][]byte // glyf, loca and hmtx only when not transformed
	glyphs  []*Glyph          // when glyf is transformed
	locaFmt int
	order   []string
	hmtxAdv []int
	hmtxLSB []int
}

type rd struct {
	b []byte
	p int
}

func (r *rd) u8() int {
	if len(r.b) <= r.p {
		panic(fmt.Sprintf("read past the end at %d", r.p))
	}
	r.p++
	return int(r.b[r.p-1])
}
func (r *rd) u16() int { return r.u8()<<8 | r.u8() }
func (r *rd) i16() int { return int(int16(r.u16())) }
func (r *rd) u32() int { return r.u16()<<16 | r.u16() }
func (r *rd) take(n int) []byte {
	if n < 0 || len(r.b)-r.p < n {
		panic(fmt.Sprintf("%d bytes read at %d of %d", n, r.p, len(r.b)))
	}
	r.p += n
	return r.b[r.p-n : r.p : r.p]
}
func (r *rd) base128() int {
	v := 0
	for i := 0; i < 5; i++ {
		c := r.u8()
		if i == 0 && c == 0x80 {
			panic("leading zero in UIntBase128")
		}
		v = v<<7 | c&0x7F
		if math.MaxUint32 < v {
			panic("UIntBase128 overflow")
		}
		if c&0x80 == 0 {
			return v
		}
	}
	panic("long UIntBase128")
}
func (r *rd) u255() int {
	switch c := r.u8(); c {
	case 253:
		return r.u16()
	case 255:
		return 253 + r.u8()
	case 254:
		return 506 + r.u8()
	default:
		return c
	}
}
func (r *rd) done(what string) {
	if r.p != len(r.b) {
		panic(fmt.Sprintf("%d bytes left in %s", len(r.b)-r.p, what))
	}
}

func brotliDecode(b []byte, limit int) ([]byte, error) {
	r := brotli.NewReader(bytes.NewReader(b))
	var buf bytes.Buffer
	_, err := buf.ReadFrom(&limitedReader{r, limit})
	return buf.Bytes(), err
}

type limitedReader struct {
	r interface{ Read([]byte) (int, error) }
	n int
}

func (l *limitedReader) Read(p []byte) (int, error) {
	if l.n < 0 {
		return 0, fmt.Errorf("too much data")
	}
	n, err := l.r.Read(p)
	l.n -= n
	return n, err
}

// readWOFF2 strictly decodes a WOFF2 file.
func readWOFF2(b []byte) (o *refWOFF2, err error) {
	defer func() {
		if r := recover(); r != nil {
			o, err = nil, fmt.Errorf("%v", r)
		}
	}()
	r := &rd{b: b}
	if s := string(r.take(4)); s != "wOF2" {
		return nil, fmt.Errorf("signature %q", s)
	}
	o = &refWOFF2{tables: map[string][]byte{}, locaFmt: -1}
	o.version = string(r.take(4))
	length, n, reserved := r.u32(), r.u16(), r.u16()
	total := r.u32()
	comp := r.u32()
	r.u16()
	r.u16()
	metaOff, metaLen, metaOrig, privOff, privLen := r.u32(), r.u32(), r.u32(), r.u32(), r.u32()
	if length != len(b) || reserved != 0 || n == 0 {
		return nil, fmt.Errorf("length %d of %d, reserved %d, %d tables", length, len(b), reserved, n)
	}
	if metaOff != 0 || metaLen != 0 || metaOrig != 0 || privOff != 0 || privLen != 0 {
		return nil, fmt.Errorf("metadata or private data")
	}
	_ = total
	type ent struct {
		tag       string
		transform int
		orig, len int
	}
	var es []ent
	seen := map[string]int{}
	sum := 0
	for i := 0; i < n; i++ {
		fl := r.u8()
		e := ent{transform: fl >> 6}
		if fl&63 == 63 {
			e.tag = string(r.take(4))
		} else {
			e.tag = woff2Known[fl&63]
		}
		if _, ok := seen[e.tag]; ok {
			return nil, fmt.Errorf("table %q twice", e.tag)
		}
		seen[e.tag] = i
		e.orig = r.base128()
		e.len = e.orig
		switch {
		case (e.tag == "glyf" || e.tag == "loca") && e.transform == 0, e.tag == "hmtx" && e.transform == 1:
			e.len = r.base128()
			if e.tag == "loca" && e.len != 0 {
				return nil, fmt.Errorf("transformed loca of %d bytes", e.len)
			}
		case (e.tag == "glyf" || e.tag == "loca") && e.transform == 3, e.transform == 0:
		default:
			return nil, fmt.Errorf("table %q with transform %d", e.tag, e.transform)
		}
		sum += e.len
		es = append(es, e)
		o.order = append(o.order, e.tag)
	}
	gi, hasG := seen["glyf"]
	li, hasL := seen["loca"]
	if hasG != hasL || hasG && (es[gi].transform != es[li].transform || li < gi) {
		return nil, fmt.Errorf("glyf and loca do not match")
	}
	stream := r.take(comp)
	for r.p%4 != 0 { // browsers want the length to be a multiple of 4
		if r.u8() != 0 {
			return nil, fmt.Errorf("padding is not zero")
		}
	}
	r.done("the file")
	data, err := brotliDecode(stream, sum)
	if err != nil {
		return nil, fmt.Errorf("brotli: %v", err)
	}
	if len(data) != sum {
		return nil, fmt.Errorf("%d bytes of data, the directory says %d", len(data), sum)
	}
	if _, ok := seen["DSIG"]; ok {
		return nil, fmt.Errorf("DSIG is present")
	}
	var hmtx []byte
	for _, e := range es {
		d := data[:e.len]
		data = data[e.len:]
		switch {
		case e.tag == "glyf" && e.transform == 0:
			o.readGlyf(d)
		case e.tag == "loca" && e.transform == 0:
		case e.tag == "hmtx" && e.transform == 1:
			hmtx = d
		default:
			o.tables[e.tag] = d
		}
	}
	head := o.tables["head"]
	if len(head) != 54 {
		return nil, fmt.Errorf("head of %d bytes", len(head))
	}
	if head[16]&0x08 == 0 {
		return nil, fmt.Errorf("bit 11 of the head flags is not set")
	}
	if o.glyphs != nil {
		if want := (len(o.glyphs) + 1) * (2 << o.locaFmt); es[li].orig != want {
			return nil, fmt.Errorf("loca length %d, expected %d", es[li].orig, want)
		}
		if o.locaFmt != be16(head, 50) {
			return nil, fmt.Errorf("index format %d, head says %d", o.locaFmt, be16(head, 50))
		}
	}
	if hmtx != nil {
		if o.glyphs == nil {
			return nil, fmt.Errorf("hmtx is transformed and glyf is not")
		}
		o.readHmtx(hmtx)
	}
	return o, nil
}

func (o *refWOFF2) readHmtx(d []byte) {
	nhm := be16(o.tables["hhea"], 34)
	n := len(o.glyphs)
	r := &rd{b: d}
	fl := r.u8()
	if fl == 0 || 3 < fl {
		panic(fmt.Sprintf("hmtx flags %d", fl))
	}
	lsb := make([]int, n)
	for i, g := range o.glyphs {
		if !g.isEmpty() {
			lsb[i] = g.BBox[0]
		}
	}
	for i := 0; i < nhm; i++ {
		o.hmtxAdv = append(o.hmtxAdv, r.u16())
	}
	if fl&1 == 0 {
		for i := 0; i < nhm; i++ {
			lsb[i] = r.i16()
		}
	}
	if fl&2 == 0 {
		for i := nhm; i < n; i++ {
			lsb[i] = r.i16()
		}
	}
	r.done("hmtx")
	o.hmtxLSB = lsb
}

func (o *refWOFF2) readGlyf(d []byte) {
	r := &rd{b: d}
	if v := r.u16(); v != 0 {
		panic(fmt.Sprintf("glyf reserved field %d", v))
	}
	opt := r.u16()
	if 1 < opt {
		panic(fmt.Sprintf("glyf option flags %d", opt))
	}
	n := r.u16()
	o.locaFmt = r.u16()
	if 1 < o.locaFmt {
		panic(fmt.Sprintf("index format %d", o.locaFmt))
	}
	var size [7]int
	for i := range size {
		size[i] = r.u32()
	}
	nc, np, fl, gs, cs := &rd{b: r.take(size[0])}, &rd{b: r.take(size[1])}, &rd{b: r.take(size[2])}, &rd{b: r.take(size[3])}, &rd{b: r.take(size[4])}
	bm := (n + 31) / 32 * 4
	bits := r.take(bm)
	bs := &rd{b: r.take(size[5] - bm)}
	is := &rd{b: r.take(size[6])}
	overlap := make([]byte, bm)
	if opt&1 != 0 {
		overlap = r.take(bm)
	}
	r.done("glyf")
	for i := n; i < 8*bm; i++ {
		if bits[i>>3]&(0x80>>(i&7)) != 0 || overlap[i>>3]&(0x80>>(i&7)) != 0 {
			panic("bitmap bit beyond the last glyph")
		}
	}
	o.glyphs = []*Glyph{}
	for i := 0; i < n; i++ {
		g := &Glyph{}
		o.glyphs = append(o.glyphs, g)
		explicit := bits[i>>3]&(0x80>>(i&7)) != 0
		c := nc.i16()
		over := overlap[i>>3]&(0x80>>(i&7)) != 0
		switch {
		case c == 0:
			if explicit {
				panic(fmt.Sprintf("glyph %d: empty with a box", i))
			}
			if over {
				panic(fmt.Sprintf("glyph %d: empty with an overlap bit", i))
			}
			continue
		case c == -1:
			if !explicit {
				panic(fmt.Sprintf("glyph %d: composite without box", i))
			}
			start := cs.p
			for {
				f := cs.u16()
				cs.u16()
				m := 2
				if f&1 != 0 {
					m = 4
				}
				switch {
				case f&0x08 != 0:
					m += 2
				case f&0x40 != 0:
					m += 4
				case f&0x80 != 0:
					m += 8
				}
				cs.take(m)
				g.HasInstr = g.HasInstr || f&0x100 != 0
				if f&0x20 == 0 {
					break
				}
			}
			raw := append(make([]byte, 10), cs.b[start:cs.p]...)
			raw[0], raw[1] = 0xFF, 0xFF
			if g.HasInstr {
				m := gs.u255()
				in := is.take(m)
				raw = append(raw, byte(m>>8), byte(m))
				raw = append(raw, in...)
			}
			p, err := refGlyph(raw)
			if err != nil {
				panic(fmt.Sprintf("glyph %d: %v", i, err))
			}
			*g = *p
		case c < 0:
			panic(fmt.Sprintf("glyph %d has %d contours", i, c))
		default:
			var lens []int
			for j := 0; j < c; j++ {
				lens = append(lens, np.u255())
			}
			x, y := 0, 0
			for _, m := range lens {
				var ct []Pt
				for ; 0 < m; m-- {
					f := fl.u8()
					dx, dy := readTriplet(f&0x7F, gs)
					x, y = int(int16(x+dx)), int(int16(y+dy))
					ct = append(ct, Pt{x, y, f&0x80 == 0})
				}
				g.Contours = append(g.Contours, ct)
			}
			g.Instr = is.take(gs.u255())
			g.BBox = (&Font{}).pointBox(g)
			g.Overlap = over
		}
		if explicit {
			for j := range g.BBox {
				g.BBox[j] = bs.i16()
			}
		}
	}
	nc.done("nContour stream")
	np.done("nPoints stream")
	fl.done("flag stream")
	gs.done("glyph stream")
	cs.done("composite stream")
	bs.done("box stream")
	is.done("instruction stream")
}

// readTriplet decodes a point after table 'Triplet Encoding' of the specification.
func readTriplet(f int, gs *rd) (dx, dy int) {
	sign := func(bit, v int) int {
		if f>>bit&1 == 0 {
			return -v
		}
		return v
	}
	switch {
	case f < 10:
		return 0, sign(0, gs.u8()+f/2*256)
	case f < 20:
		return sign(0, gs.u8()+(f-10)/2*256), 0
	case f < 84:
		c := gs.u8()
		b := f - 20
		return sign(0, 1+b/16*16+c>>4), sign(1, 1+b/4%4*16+c&15)
	case f < 120:
		b := f - 84
		x, y := gs.u8(), gs.u8()
		return sign(0, 1+b/12*256+x), sign(1, 1+b%12/4*256+y)
	case f < 124:
		a, b, c := gs.u8(), gs.u8(), gs.u8()
		return sign(0, a<<4|b>>4), sign(1, b&15<<8|c)
	}
	x := gs.u16()
	y := gs.u16()
	return sign(0, x), sign(1, y)
}
