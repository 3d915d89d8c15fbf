package harness

// Broken fonts: structural damage to valid fonts, hand-built malicious tables and noise.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"maps"
	"os"
	"slices"
	"strings"
	"sync"
)

type mutant struct {
	b      []byte
	index  int
	reach  bool // the table directory is intact, so the table parsers run
	evil   string
	what   []string
	n      int // glyphs of the font it came from
	tables map[string][]byte
	base   *Font
}

func (m *mutant) log(format string, args ...any) {
	m.what = append(m.what, fmt.Sprintf(format, args...))
}

func (m *mutant) String() string {
	return fmt.Sprintf("%d bytes, index %d, %s", len(m.b), m.index, strings.Join(m.what, "; "))
}

var fileCache sync.Map

func readFile(path string) []byte {
	if v, ok := fileCache.Load(path); ok {
		return v.([]byte)
	}
	b, err := os.ReadFile(path)
	if err != nil {
		theCtx.bad("read %s: %v", path, err)
	}
	fileCache.Store(path, b)
	return b
}

func looseTables(b []byte) (string, map[string][]byte) {
	t := map[string][]byte{}
	n := be16(b, 4)
	for i := 0; i < n; i++ {
		p := 12 + 16*i
		off, size := int(be32(b, p+8)), int(be32(b, p+12))
		t[string(b[p:p+4])] = b[off : off+size]
	}
	return string(b[:4]), t
}

var mutTags = []string{"head", "hhea", "hmtx", "maxp", "cmap", "name", "post", "OS/2", "glyf", "loca", "CFF ", "kern", "vhea", "vmtx", "GSUB", "GPOS", "GDEF", "CFF2"}

// interesting values for a size-byte field that now holds old, in a table of n bytes
func (k *Case) genField(size int, old uint64, n int) uint64 {
	top := uint64(1)<<(8*size) - 1
	var v uint64
	switch k.U(10) {
	case 0:
		v = 0
	case 1:
		v = 1
	case 2:
		v = top
	case 3:
		v = top >> 1
	case 4:
		v = top>>1 + 1
	case 5:
		v = uint64(n + k.I(-2, 2))
	case 6:
		v = old + uint64(k.I(1, 4))
	case 7:
		v = old - uint64(k.I(1, 4))
	case 8:
		v = uint64(k.U(300))
	default:
		v = genU64.Draw(k.T, "v")
	}
	return v & top
}

// damage applies one mutation to a table and describes it.
func (k *Case) damage(d, other []byte) ([]byte, string) {
	d = bytes.Clone(d)
	n := len(d)
	pos := func(size int) int {
		if n < size {
			return -1
		}
		if k.P(55) {
			return k.U(min(n-size+1, 64))
		}
		return k.U(n - size + 1)
	}
	switch k.U(13) {
	case 0, 1, 2, 3, 4, 5:
		size := pick(k, 2, 1, 4, 2, 2)
		p := pos(size)
		if p < 0 {
			return d, "nothing"
		}
		if k.P(70) && size <= p%4+1 {
			p -= p % size
		}
		var old uint64
		for i := 0; i < size; i++ {
			old = old<<8 | uint64(d[p+i])
		}
		v := k.genField(size, old, n)
		for i := size - 1; 0 <= i; i-- {
			d[p+i] = byte(v)
			v >>= 8
		}
		return d, fmt.Sprintf("u%d at %d from %#x to %#x", 8*size, p, old, d[p:p+size])
	case 6:
		m := k.U(n + 1)
		if k.B() {
			m = max(0, n-1-k.U(8))
		}
		return d[:m:m], fmt.Sprintf("cut from %d to %d", n, m)
	case 7:
		e := k.blob(pick(k, 1, 2, 4, 16, 200))
		return append(d, e...), fmt.Sprintf("%d bytes added", len(e))
	case 8:
		if n == 0 {
			return d, "nothing"
		}
		p := k.U(n)
		q := min(n, p+1+k.U(32))
		v := pick[byte](k, 0, 0xFF, 0x80)
		for i := p; i < q; i++ {
			d[i] = v
		}
		return d, fmt.Sprintf("%d..%d filled with %#x", p, q, v)
	case 9:
		if other == nil {
			return d, "nothing"
		}
		return bytes.Clone(other), "replaced by another font's"
	case 10: // copy a chunk over another place
		if n == 0 {
			return d, "nothing"
		}
		p, q := k.U(n), k.U(n)
		m := min(n-p, n-q, 1+k.U(16))
		copy(d[q:q+m], bytes.Clone(d[p:p+m]))
		return d, fmt.Sprintf("%d bytes from %d copied to %d", m, p, q)
	case 11: // insert
		p := k.U(n + 1)
		e := k.blob(1 + k.U(6))
		return slices.Insert(d, p, e...), fmt.Sprintf("%d bytes inserted at %d", len(e), p)
	default: // delete
		if n == 0 {
			return d, "nothing"
		}
		p := k.U(n)
		m := min(n-p, 1+k.U(6))
		return slices.Delete(d, p, p+m), fmt.Sprintf("%d bytes deleted at %d", m, p)
	}
}

// MutOpt steers genMutant.
type MutOpt struct {
	Dir  bool // also damage the directory and the raw file
	Mild bool // at most one or two pieces of damage, so that most fonts stay acceptable
	Real int  // percentage of bundled fonts
}

// genMutant draws a broken font.
func (k *Case) genMutant(o MutOpt) *mutant {
	m := &mutant{reach: true}
	version := ""
	switch {
	case k.P(o.Real):
		fn := pick(k, "DejaVuSerif.ttf", "EBGaramond12-Regular.otf", "AdobeVFPrototype.otf")
		version, m.tables = looseTables(readFile("/repo/resources/" + fn))
		m.tables = maps.Clone(m.tables)
		m.n = be16(m.tables["maxp"], 4)
		m.log("bundled %s", fn)
	case k.P(30):
		f := k.genEvil(m)
		version, m.tables = f.version(), maps.Clone(f.tables)
		m.n = f.N()
		m.base = f
	default:
		f := k.genFont(FontOpt{BigN: true})
		f.bytes(k)
		version, m.tables = f.version(), maps.Clone(f.tables)
		m.n = f.N()
		m.base = f
		m.log("%v", f)
	}
	var other *Font
	count := 1 + k.U(4)
	if o.Mild {
		count = k.U(3)
	}
	for ; 0 < count; count-- {
		tags := sortedTags(m.tables)
		if len(tags) == 0 {
			break
		}
		tag := pick(k, tags...)
		if k.P(70) {
			tag = pick(k, mutTags...)
		}
		if k.P(6) { // drop
			if _, ok := m.tables[tag]; ok {
				delete(m.tables, tag)
				m.log("%s dropped", tag)
			}
			continue
		}
		if k.P(4) { // put another table's data there
			from := pick(k, tags...)
			m.tables[tag] = m.tables[from]
			m.log("%s replaced by %s", tag, from)
			continue
		}
		d, ok := m.tables[tag]
		if !ok {
			if !k.P(10) {
				continue
			}
			d = k.blob(k.U(80))
		}
		var od []byte
		if k.P(25) {
			if other == nil {
				other = k.genFont(FontOpt{MaxN: 8})
				other.bytes(k)
			}
			od = other.tables[tag]
		}
		var what string
		m.tables[tag], what = k.damage(d, od)
		if what != "nothing" {
			m.log("%s: %s", tag, what)
		}
	}
	m.b = buildSFNT(version, m.tables, k.shuffle(sortedTags(m.tables)))
	if !o.Dir {
		return m
	}
	switch {
	case k.P(12): // damage to the directory
		var what string
		if 12 < len(m.b) {
			nd := min(len(m.b), 12+16*len(m.tables))
			var d []byte
			d, what = k.damage(m.b[:nd], nil)
			m.b = append(d, m.b[nd:]...)
		}
		m.log("directory: %s", what)
		m.reach = false
	case k.P(6):
		n := k.U(len(m.b) + 1)
		if k.B() {
			n = min(len(m.b), pick(k, 0, 3, 4, 11, 12, 13, 27, 28, 29, 100))
		}
		m.b = m.b[:n:n]
		m.log("file cut to %d", n)
		m.reach = false
	case k.P(5):
		m.b = k.blob(k.U(300))
		if k.B() && 4 <= len(m.b) {
			copy(m.b, pick(k, "\x00\x01\x00\x00", "OTTO", "true", "ttcf", "wOFF", "wOF2", "typ1"))
		}
		m.what = []string{fmt.Sprintf("noise of %d bytes", len(m.b))}
		m.reach = false
	case k.P(8): // collection
		fonts := 1 + k.U(3)
		b, _, _ := k.genCollection(func() (fs []*Font) {
			for i := 0; i < fonts; i++ {
				f := k.genFont(FontOpt{MaxN: 4, NoExtra: true})
				f.bytes(k)
				if i == 0 && m.base != nil {
					f.tables = m.tables
				}
				fs = append(fs, f)
			}
			return
		}())
		m.b = b
		m.index = k.U(fonts)
		m.log("in a collection of %d", fonts)
		if k.P(60) {
			var what string
			nd := min(len(b), 12+4*fonts+8)
			d, what := k.damage(m.b[:nd], nil)
			m.b = append(d, m.b[nd:]...)
			m.log("collection header: %s", what)
			m.reach = false
		}
	}
	if k.P(6) {
		m.index = pick(k, -1, 1, 2, 1<<30, -1<<31, 1<<62, 65535)
		m.reach = false
	}
	return m
}

// ---- malicious tables ----

// genEvil builds a font in which one part is made to be expensive or contradictory.
func (k *Case) genEvil(m *mutant) *Font {
	kind := pick(k, "composites", "composites", "subrs", "subrs", "cffdata", "cid", "cmap", "cmap", "kern", "name", "post", "loca")
	m.evil = kind
	o := FontOpt{Flavour: 1, MinN: 6, MaxN: 6}
	switch kind {
	case "subrs", "cffdata", "cid":
		o.Flavour = 2
	case "cmap", "name", "kern":
		o.Flavour = 0
	}
	f := k.genFont(o)
	f.bytes(k)
	f.tables = maps.Clone(f.tables)
	switch kind {
	case "composites":
		k.evilComposites(f, m)
	case "subrs", "cffdata", "cid":
		k.evilCFF(f, m, kind)
	case "cmap":
		k.evilCmap(f, m)
	case "kern":
		k.evilKern(f, m)
	case "name":
		k.evilName(f, m)
	case "post":
		k.evilPost(f, m)
	case "loca":
		k.evilLoca(f, m)
	}
	return f
}

// xheight makes the parser itself draw some glyphs (the OS/2 estimates of 'x' and 'H').
func (k *Case) xheight(f *Font, m *mutant, gids ...int) {
	w := &W{}
	w.u16(0)
	w.u16(1)
	w.u16(3)
	w.u16(1)
	w.u32(12)
	w.u16(6)
	w.u16(10 + 2*('x'-'H'+1))
	w.u16(0)
	w.u16('H')
	w.u16('x' - 'H' + 1)
	for r := 'H'; r <= 'x'; r++ {
		switch r {
		case 'H':
			w.u16(gids[0])
		case 'x':
			w.u16(gids[len(gids)-1])
		default:
			w.u16(0)
		}
	}
	f.tables["cmap"] = w.b
	if d := f.tables["OS/2"]; 2 <= len(d) && k.B() {
		d = bytes.Clone(d)
		d[0], d[1] = 0, byte(k.U(2))
		f.tables["OS/2"] = d
		m.log("x and H estimated")
	} else if f.version() != "OTTO" && k.B() {
		delete(f.tables, "OS/2")
		m.log("no OS/2")
	}
}

func resizeMetrics(f *Font, n int) {
	for _, tag := range []string{"hmtx", "vmtx"} {
		if _, ok := f.tables[tag]; ok {
			f.tables[tag] = make([]byte, 4*n)
		}
	}
	for _, tag := range []string{"hhea", "vhea"} {
		if d, ok := f.tables[tag]; ok {
			d = bytes.Clone(d)
			binary.BigEndian.PutUint16(d[34:], uint16(n))
			f.tables[tag] = d
		}
	}
	d := bytes.Clone(f.tables["maxp"])
	binary.BigEndian.PutUint16(d[4:], uint16(n))
	f.tables["maxp"] = d
	w := &W{}
	w.u32(0x00030000)
	w.b = append(w.b, make([]byte, 28)...)
	f.tables["post"] = w.b
}

func (f *Font) setGlyphs(glyphs [][]byte) {
	glyf, loca := &W{}, &W{}
	for _, g := range glyphs {
		loca.u32(uint32(len(glyf.b)))
		glyf.bytes(g)
		glyf.pad(4)
	}
	loca.u32(uint32(len(glyf.b)))
	f.tables["glyf"], f.tables["loca"] = glyf.b, loca.b
	h := bytes.Clone(f.tables["head"])
	h[50], h[51] = 0, 1
	f.tables["head"] = h
	resizeMetrics(f, len(glyphs))
}

func (k *Case) evilComposites(f *Font, m *mutant) {
	n := 4 + k.U(60)
	r := k.rng()
	width := pick(k, 2, 1, 3, 10, 200, 2000)
	style := k.U(5)
	leaf := k.U(6)
	depth := 1 + k.U(n-1)
	glyphs := make([][]byte, n)
	for i := range glyphs {
		w := &W{}
		if i < depth {
			w.u16(pick(k, -1, -1, -2, -32768))
			w.i64(0)
			kind := r.n(4)
			if style != 4 {
				kind = 0
			}
			cnt := width
			if style == 3 {
				cnt = 1 + r.n(width)
			}
			for j := 0; j < cnt; j++ {
				gid := i + 1
				switch style {
				case 1: // any, loops included
					gid = r.n(n)
				case 2: // any later
					gid = i + 1 + r.n(n-i-1)
				}
				if r.p(1) {
					gid = n + r.n(3)
				}
				flags := 0x0002
				if j+1 < cnt || r.p(1) {
					flags |= 0x0020
				}
				flags |= []int{0, 0x0008, 0x0040, 0x0080}[kind]
				w.u16(flags)
				w.u16(gid)
				w.u16(0)
				for q := []int{0, 1, 2, 4}[kind]; 0 < q; q-- {
					w.u16(0x4000)
				}
			}
		} else {
			switch leaf {
			case 0: // empty
			case 1: // one point
				w.u16(1)
				w.i64(0)
				w.u16(0)
				w.u16(0)
				w.bytes([]byte{0x31})
			case 2, 3: // many points by repetition
				np := pick(k, 256, 1000, 65535, 65536)
				w.u16(1)
				w.i64(0)
				w.u16(np - 1)
				w.u16(0)
				for q := np; 0 < q; q -= 256 {
					w.u8(0x39)
					w.u8(min(q, 256) - 1)
				}
			case 4: // many contours
				nc := pick(k, 300, 5000)
				w.u16(nc)
				w.i64(0)
				same := k.B() // all end at the first point
				for c := 0; c < nc; c++ {
					if same {
						w.u16(0)
					} else {
						w.u16(c)
					}
				}
				w.u16(0)
				for q := nc; 0 < q; q -= 256 {
					w.u8(0x39)
					w.u8(min(q, 256) - 1)
				}
			default: // a point count with nothing behind it
				w.u16(k.U(4))
				w.i64(0)
				w.u16(pick(k, 65535, 65534, 0))
				w.u16(k.U(3))
			}
		}
		glyphs[i] = w.b
	}
	f.setGlyphs(glyphs)
	m.log("composites: %d glyphs, depth %d, width %d, style %d, leaf %d", n, depth, width, style, leaf)
	if k.B() {
		k.xheight(f, m, k.U(n), 0)
	}
}

func (k *Case) evilLoca(f *Font, m *mutant) {
	n := len(f.Glyphs)
	r := k.rng()
	w := &W{}
	glyf := len(f.tables["glyf"])
	for i := 0; i <= n; i++ {
		switch r.n(4) {
		case 0:
			w.u32(uint32(glyf))
		case 1:
			w.u32(uint32(r.n(1 << 31)))
		default:
			w.u32(uint32(r.n(glyf + 8)))
		}
	}
	f.tables["loca"] = w.b
	h := bytes.Clone(f.tables["head"])
	h[50], h[51] = 0, 1
	f.tables["head"] = h
	m.log("random loca")
}

// rawCFF puts a CFF table together from raw parts.
type rawCFF struct {
	glyphs, gsubrs, locals [][]byte
	strings                [][]byte
	charset                []byte
	fds                    int
	fdselect               []byte
	extra                  []byte // raw top DICT operators
	private                []byte
	sharePrivate           bool
}

func cffInt(w *W, v int) {
	w.u8(29)
	w.u32(uint32(v))
}

func rawINDEX(items [][]byte) []byte {
	w := &W{}
	w.u16(len(items))
	if len(items) == 0 {
		return w.b
	}
	w.u8(4)
	p := 1
	for _, it := range items {
		w.u32(uint32(p))
		p += len(it)
	}
	w.u32(uint32(p))
	for _, it := range items {
		w.bytes(it)
	}
	return w.b
}

func (c *rawCFF) enc() []byte {
	var charset, cs, private, fdarray, fdselect, psize int
	build := func() []byte {
		w := &W{}
		w.bytes([]byte{1, 0, 4, 1})
		w.bytes(rawINDEX([][]byte{[]byte("Evil")}))
		d := &W{}
		if 0 < c.fds {
			cffInt(d, 391)
			cffInt(d, 391)
			cffInt(d, 0)
			d.bytes([]byte{12, 30})
			cffInt(d, fdarray)
			d.bytes([]byte{12, 36})
			cffInt(d, fdselect)
			d.bytes([]byte{12, 37})
		} else {
			cffInt(d, psize)
			cffInt(d, private)
			d.u8(18)
		}
		cffInt(d, charset)
		d.u8(15)
		cffInt(d, cs)
		d.u8(17)
		d.bytes(c.extra)
		w.bytes(rawINDEX([][]byte{d.b}))
		w.bytes(rawINDEX(c.strings))
		w.bytes(rawINDEX(c.gsubrs))
		charset = len(w.b)
		if c.charset == nil {
			charset = 0
		}
		w.bytes(c.charset)
		cs = len(w.b)
		w.bytes(rawINDEX(c.glyphs))
		fdselect = len(w.b)
		w.bytes(c.fdselect)
		private = len(w.b)
		p := &W{}
		p.bytes(c.private)
		if c.locals != nil {
			cffInt(p, len(p.b)+6)
			p.u8(19)
		}
		psize = len(p.b)
		w.bytes(p.b)
		if c.locals != nil {
			w.bytes(rawINDEX(c.locals))
		}
		if 0 < c.fds {
			fdarray = len(w.b)
			var fds [][]byte
			for i := 0; i < c.fds; i++ {
				d := &W{}
				cffInt(d, psize)
				cffInt(d, private)
				d.u8(18)
				fds = append(fds, d.b)
			}
			w.bytes(rawINDEX(fds))
		}
		return w.b
	}
	build()
	return build()
}

func t2call(w *W, i, n, op int) {
	encT2Int(w, i-t2bias(n))
	w.u8(op)
}

func (k *Case) evilCFF(f *Font, m *mutant, kind string) {
	r := k.rng()
	c := &rawCFF{}
	n := 2 + k.U(20)
	switch kind {
	case "subrs":
		ns := 2 + k.U(30)
		width := pick(k, 2, 1, 3, 8, 60, 2000)
		style := k.U(5)
		op := pick(k, 10, 29)
		leaf := k.U(5)
		for i := 0; i < ns; i++ {
			w := &W{}
			if i+1 < ns {
				for j := 0; j < width; j++ {
					to := i + 1
					switch style {
					case 1:
						to = r.n(ns)
					case 2:
						to = i + 1 + r.n(ns-i-1)
					case 3:
						if r.p(5) {
							to = ns + r.n(3)
						}
					}
					o := op
					if style == 4 {
						o = []int{10, 29}[r.n(2)]
					}
					t2call(w, to, ns, o)
				}
			} else {
				switch leaf {
				case 1:
					w.bytes([]byte{140, 140, 5})
				case 2:
					w.u8(14)
				case 3:
					w.bytes([]byte{139, 139, 1, 19})
				case 4:
					for j := 0; j < 2000; j++ {
						w.bytes([]byte{140, 140, 5})
					}
				}
			}
			if !r.p(4) {
				w.u8(11)
			}
			if op == 10 || style == 4 {
				c.locals = append(c.locals, w.b)
			}
			if op == 29 || style == 4 {
				c.gsubrs = append(c.gsubrs, w.b)
			}
		}
		for i := 0; i < n; i++ {
			w := &W{}
			w.bytes([]byte{140, 140, 21})
			t2call(w, r.n(min(ns, 3)), ns, op)
			if !r.p(10) {
				w.u8(14)
			}
			c.glyphs = append(c.glyphs, w.b)
		}
		m.log("subroutines: %d, width %d, style %d, op %d, leaf %d", ns, width, style, op, leaf)
	case "cffdata":
		noise := func(limit int) []byte {
			b := make([]byte, r.n(limit))
			for i := range b {
				switch r.n(4) {
				case 0:
					b[i] = byte(r.n(32))
				case 1:
					b[i] = byte(32 + r.n(224))
				case 2:
					b[i] = []byte{10, 11, 14, 29, 19, 20, 21, 5, 8, 12, 28, 255, 1, 24, 25, 26, 27, 30, 31}[r.n(19)]
				default:
					b[i] = byte(139 + r.n(8) - 4)
				}
			}
			return b
		}
		for i := 0; i < n; i++ {
			c.glyphs = append(c.glyphs, noise(1+k.U(60)))
		}
		for i := k.U(6); 0 < i; i-- {
			c.gsubrs = append(c.gsubrs, noise(20))
		}
		for i := k.U(6); 0 < i; i-- {
			c.locals = append(c.locals, noise(20))
		}
		if k.B() {
			c.extra = noise(24)
		}
		if k.B() {
			c.private = noise(24)
		}
		m.log("random charstrings")
	case "cid":
		n = pick(k, 4, 300, 3000)
		for i := 0; i < n; i++ {
			c.glyphs = append(c.glyphs, []byte{14})
		}
		c.fds = pick(k, 1, 2, 255, 256, 257, 20000)
		if k.P(20) {
			c.fds = 0
		}
		c.strings = [][]byte{[]byte("Adobe"), bytes.Repeat([]byte{'x'}, pick(k, 3, 30000))}
		w := &W{}
		if k.B() {
			w.u8(0)
			for i := 1; i < n; i++ {
				w.u16(pick(k, 392, 391, 1))
				if 100 < i {
					w.u16(392)
					i++
				}
			}
		} else {
			w.u8(1)
			for i := 1; i < n; i++ {
				w.u16(392)
				w.u8(0)
			}
		}
		c.charset = w.b
		for i := pick(k, 1, 500, 5000); 0 < i; i-- {
			c.locals = append(c.locals, []byte{11})
		}
		s := &W{}
		if k.B() {
			s.u8(0)
			for i := 0; i < n; i++ {
				s.u8(r.n(min(256, c.fds+1)))
			}
		} else {
			s.u8(3)
			nr := 1 + k.U(4)
			s.u16(nr)
			for i := 0; i < nr; i++ {
				s.u16(i * r.n(3))
				s.u8(r.n(min(256, c.fds+1)))
			}
			s.u16(n - r.n(2))
		}
		c.fdselect = s.b
		m.log("CID: %d glyphs, %d FDs, %d locals", n, c.fds, len(c.locals))
	}
	f.tables["CFF "] = c.enc()
	resizeMetrics(f, len(c.glyphs))
	delete(f.tables, "kern")
	f.Glyphs = make([]*Glyph, len(c.glyphs))
	if k.B() {
		k.xheight(f, m, k.U(n), 1)
	}
}

func (k *Case) evilCmap(f *Font, m *mutant) {
	r := k.rng()
	n := len(f.Glyphs)
	w := &W{}
	switch kind := k.U(7); kind {
	case 0: // many records with the same or overlapping subtables
		nr := pick(k, 4, 100, 4000)
		sub := &W{}
		fmtt := pick(k, 0, 6, 12, 4)
		switch fmtt {
		case 0:
			sub.u16(0)
			sub.u16(262)
			sub.u16(0)
			sub.bytes(make([]byte, 256))
		case 6:
			c := pick(k, 10, 5000, 30000)
			sub.u16(6)
			sub.u16(10 + 2*c)
			sub.u16(0)
			sub.u16(32)
			sub.u16(c)
			for i := 0; i < c; i++ {
				sub.u16(r.n(n))
			}
		case 12:
			c := pick(k, 1, 2000)
			sub.u16(12)
			sub.u16(0)
			sub.u32(uint32(16 + 12*c))
			sub.u32(0)
			sub.u32(uint32(c))
			for i := 0; i < c; i++ {
				sub.u32(uint32(32 + i))
				sub.u32(uint32(32 + i))
				sub.u32(uint32(r.n(n)))
			}
		case 4:
			c := pick(k, 2, 4000)
			sub.u16(4)
			sub.u16((16 + 8*c) & 0xFFFF)
			sub.u16(0)
			sub.u16(2 * c)
			sub.u16(0)
			sub.u16(0)
			sub.u16(0)
			for i := 0; i < c; i++ {
				sub.u16(65536 - c + i)
			}
			sub.u16(0)
			for i := 0; i < c; i++ {
				sub.u16(65536 - c + i)
			}
			for i := 0; i < c; i++ {
				sub.u16(c - i)
			}
			for i := 0; i < c; i++ {
				sub.u16(0)
			}
		}
		overlap := k.B()
		w.u16(0)
		w.u16(nr)
		base := 4 + 8*nr
		for i := 0; i < nr; i++ {
			w.u16(i / 20)
			w.u16(i % 20)
			if overlap {
				w.u32(uint32(base + i*2))
			} else {
				w.u32(uint32(base))
			}
		}
		if overlap { // the subtable's header again and again, each two bytes later
			for i := 0; i < nr*2+len(sub.b); i += 2 {
				w.u16(fmtt)
			}
		}
		w.bytes(sub.b)
		m.log("cmap: %d records, format %d, overlap %v", nr, fmtt, overlap)
	case 1: // format 12 with vast or strange groups
		c := pick(k, 1, 3, 50)
		w.u16(0)
		w.u16(1)
		w.u16(3)
		w.u16(10)
		w.u32(12)
		w.u16(12)
		w.u16(0)
		w.u32(uint32(16 + 12*c))
		w.u32(0)
		w.u32(uint32(c))
		at := uint32(0)
		for i := 0; i < c; i++ {
			s := at + uint32(r.n(3))
			e := s + uint32(r.n(40))
			switch r.n(6) {
			case 0:
				e = 0xFFFFFFFF
			case 1:
				e = 0x10FFFF
			case 2:
				e = s + uint32(n) - 1
			case 3:
				s = 0xFFFFFF00
				e = 0xFFFFFFFF
			}
			w.u32(s)
			w.u32(e)
			w.u32([]uint32{0, 1, uint32(n - 1), uint32(n), 0xFFFFFFFF, 65535}[r.n(6)])
			at = e + 1
		}
		m.log("cmap: format 12 with %d strange groups", c)
	case 2, 3: // format 4 noise
		c := 1 + k.U(8)
		w.u16(0)
		w.u16(1)
		w.u16(0)
		w.u16(3)
		w.u32(12)
		extra := k.U(20)
		w.u16(4)
		w.u16(16 + 8*c + 2*extra)
		w.u16(0)
		w.u16(2 * c)
		w.u16(0)
		w.u16(0)
		w.u16(0)
		ends := make([]int, c)
		for i := range ends {
			ends[i] = r.n(65536)
		}
		if r.p(80) {
			slices.Sort(ends)
			ends[c-1] = 0xFFFF
		}
		for _, e := range ends {
			w.u16(e)
		}
		w.u16(r.n(2))
		prev := 0
		for i, e := range ends {
			s := prev + r.n(max(1, e-prev))
			if i+1 == c && r.p(80) {
				s = 0xFFFF
			}
			w.u16(s)
			prev = e + 1
		}
		for i := 0; i < c; i++ {
			w.u16(r.n(65536))
		}
		for i := 0; i < c; i++ {
			w.u16([]int{0, 2 * (c - i), 2, 0xFFFF, 2*(c-i) + 2*extra, 1, r.n(65536)}[r.n(7)])
		}
		for i := 0; i < extra; i++ {
			w.u16(r.n(n + 3))
		}
		m.log("cmap: format 4 noise, %d segments", c)
	case 4: // format 6 and 0 with foreign glyphs
		c := k.U(20)
		w.u16(0)
		w.u16(2)
		w.u16(1)
		w.u16(0)
		w.u32(20)
		w.u16(3)
		w.u16(1)
		w.u32(uint32(20 + 262))
		w.u16(0)
		w.u16(262)
		w.u16(0)
		for i := 0; i < 256; i++ {
			w.u8(r.n(n + 1))
		}
		w.u16(6)
		w.u16(10 + 2*c)
		w.u16(0)
		w.u16(pick(k, 0, 32, 65530))
		w.u16(c + k.I(-1, 1))
		for i := 0; i < c; i++ {
			w.u16(r.n(n + 2))
		}
		m.log("cmap: formats 0 and 6")
	case 5: // variation selectors
		w.u16(0)
		w.u16(3)
		w.u16(0)
		w.u16(5)
		w.u32(28)
		w.u16(3)
		w.u16(1)
		w.u32(uint32(28 + 10))
		w.u16(3)
		w.u16(10)
		w.u32(uint32(28 + pick(k, 10, 0, 4)))
		w.u16(14)
		w.u32(uint32(pick(k, 10, 0, 11, 0xFFFFFF)))
		w.u32(uint32(k.U(3)))
		w.u16(6)
		w.u16(12)
		w.u16(0)
		w.u16(33)
		w.u16(1)
		w.u16(1)
		m.log("cmap: format 14")
	default: // other formats
		w.u16(k.U(2))
		w.u16(1 + k.U(2))
		for i := 0; i < 2; i++ {
			w.u16(3)
			w.u16(i)
			w.u32(uint32(k.U(40)))
		}
		w.u16(pick(k, 2, 8, 10, 13, 14, 12))
		w.bytes(k.blob(k.U(30)))
		m.log("cmap: odd format")
	}
	f.tables["cmap"] = w.b
}

func (k *Case) evilKern(f *Font, m *mutant) {
	r := k.rng()
	w := &W{}
	nt := pick(k, 1, 2, 3, 65535, 0)
	w.u16(0)
	w.u16(nt)
	for i := 0; i < min(nt, 3); i++ {
		np := pick(k, 0, 1, 5, 30, 65535)
		real := min(np, k.U(40))
		w.u16(r.n(2))
		w.u16(14 + 6*pick(k, real, np, real-1))
		w.u16([]int{1, 1, 9, 0, 3, 5, 0x0101}[r.n(7)])
		w.u16(np)
		w.u16(r.n(65536))
		w.u16(r.n(65536))
		w.u16(r.n(65536))
		key := 0
		for j := 0; j < real; j++ {
			key += r.n(70000)
			w.u32(uint32(key))
			w.u16(r.n(65536))
		}
	}
	f.tables["kern"] = w.b
	m.log("kern: %d subtables", nt)
}

func (k *Case) evilName(f *Font, m *mutant) {
	r := k.rng()
	w := &W{}
	nr := pick(k, 0, 3, 300, 5000)
	ver := k.U(2)
	w.u16(ver)
	w.u16(nr)
	hdr := 6 + 12*nr
	nl := 0
	if ver == 1 {
		nl = pick(k, 0, 2, 300)
		hdr += 2 + 4*nl
	}
	size := pick(k, 10, 65535, 1000)
	if k.P(80) {
		w.u16(hdr & 0xFFFF)
	} else {
		w.u16(k.U(65536))
	}
	whole := k.B()
	for i := 0; i < nr; i++ {
		w.u16(r.n(4))
		w.u16(r.n(11))
		w.u16(r.n(0x410))
		w.u16(r.n(8))
		if whole {
			w.u16(size)
			w.u16(0)
		} else {
			w.u16(r.n(size + 2))
			w.u16(r.n(size + 2))
		}
	}
	if ver == 1 {
		w.u16(nl)
		for i := 0; i < nl; i++ {
			w.u16(size)
			w.u16(r.n(2))
		}
	}
	w.bytes(make([]byte, size))
	f.tables["name"] = w.b
	m.log("name: %d records of up to %d bytes, whole %v", nr, size, whole)
}

func (k *Case) evilPost(f *Font, m *mutant) {
	r := k.rng()
	n := len(f.Glyphs)
	w := &W{}
	w.u32(pick[uint32](k, 0x00020000, 0x00020000, 0x00010000, 0x00025000, 0x00040000, 0x00030000))
	w.bytes(make([]byte, 28))
	w.u16(n + pick(k, 0, 0, 1, -1, 1000))
	for i := 0; i < n; i++ {
		w.u16([]int{0, 257, 258, 259, 258 + n, 32767, 32768, 65535, r.n(300)}[r.n(9)])
	}
	for i := k.U(n + 3); 0 < i; i-- {
		l := []int{0, 1, 5, 63, 64, 255}[r.n(6)]
		w.u8(l)
		w.bytes(bytes.Repeat([]byte{byte('a' + r.n(26))}, l-r.n(2)*min(1, l)))
	}
	f.tables["post"] = w.b
	m.log("post noise")
}
