package harness

// Damaged WOFF, WOFF2, EOT and AFM files.

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"

	"github.com/andybalholm/brotli"
	"github.com/tdewolff/font"
)

type container struct {
	b     []byte
	kind  string
	what  []string
	reach bool // the header is intact
}

func (o *container) log(format string, args ...any) {
	o.what = append(o.what, fmt.Sprintf(format, args...))
}

func (o *container) String() string {
	return fmt.Sprintf("%s of %d bytes, %s", o.kind, len(o.b), strings.Join(o.what, "; "))
}

var realContainers = sync.OnceValue(func() []string {
	var fns []string
	for _, pat := range []string{"/repo/tests/woff/corpus/*.woff", "/repo/tests/woff2/corpus/*.woff2", "/repo/testdata/woff_format/*.woff", "/repo/testdata/woff2_format/*.woff2", "/repo/testdata/woff2_decoder/*.woff2"} {
		m, _ := filepath.Glob(pat)
		for _, fn := range m {
			if fi, err := os.Stat(fn); err == nil && fi.Size() < 100000 {
				fns = append(fns, fn)
			}
		}
	}
	return fns
})

// genContainer makes a WOFF, WOFF2 or EOT file and damages it in up to n places.
func (k *Case) genContainer(n int) *container {
	o := &container{reach: true}
	var fields [][2]int // offset and size of interesting fields
	count := k.U(n + 1)
	switch d := k.U(100); {
	case d < 30: // WOFF of a damaged font
		o.kind = "WOFF"
		m := k.genMutant(MutOpt{Mild: true})
		o.what = append(o.what, m.what...)
		w := k.genWOFF(string(m.b[:min(4, len(m.b))]), m.tables)
		for _, e := range w.entries {
			for i := 0; i < 5; i++ {
				fields = append(fields, [2]int{e.dirOffset + 4*i, 4})
			}
			if 1 < len(e.data) {
				fields = append(fields, [2]int{e.off + k.U(len(e.data)), 1})
			}
		}
		o.b = w.b
	case d < 70: // WOFF2 with damaged streams
		o.kind = "WOFF2"
		f := k.genFont(FontOpt{Flavour: pick(k, 1, 1, 2), MaxN: 12, BigN: k.P(5)})
		f.bytes(k)
		w := k.genWOFF2(f)
		o.log("%v", f)
		for i := k.U(n + 1); 0 < i; i-- {
			e := w.entries[k.U(len(w.entries))]
			if k.P(60) {
				tag := pick(k, "glyf", "glyf", "glyf", "hmtx", "loca", "head", "maxp", "hhea")
				for _, e2 := range w.entries {
					if e2.tag == tag {
						e = e2
					}
				}
			}
			if e.tag == "glyf" && e.transform == 0 && 36 <= len(e.data) && k.P(25) {
				// move bytes between streams, or a damaged number of glyphs
				e.data = bytes.Clone(e.data)
				p := 8 + 4*k.U(7)
				q := 8 + 4*k.U(7)
				v := min(uint32(k.U(20)), be32(e.data, p))
				binary.BigEndian.PutUint32(e.data[p:], be32(e.data, p)-v)
				binary.BigEndian.PutUint32(e.data[q:], be32(e.data, q)+v)
				o.log("glyf: %d bytes from stream %d to %d", v, (p-8)/4, (q-8)/4)
				continue
			}
			var what string
			size := len(e.data)
			e.data, what = k.damage(e.data, nil)
			if e.transform == 0 && e.tag != "glyf" && e.tag != "loca" || k.P(10) {
				e.orig += len(e.data) - size
				e.orig = max(e.orig, 0)
			} else if k.P(15) {
				e.orig = int(k.genField(4, uint64(e.orig), e.orig))
				what += fmt.Sprintf(", original length %d", e.orig)
			}
			o.log("%s: %s", e.tag, what)
		}
		if k.P(8) {
			i, j := k.U(len(w.entries)), k.U(len(w.entries))
			w.entries[i], w.entries[j] = w.entries[j], w.entries[i]
			o.log("entries %d and %d swapped", i, j)
		}
		if k.P(5) {
			i := k.U(len(w.entries))
			w.entries = append(w.entries[:i:i], w.entries[i+1:]...)
			o.log("entry %d dropped", i)
		}
		if k.P(5) {
			i := k.U(max(1, len(w.entries)))
			if i < len(w.entries) {
				w.entries[i].transform = k.U(4)
				o.log("entry %d has transform %d", i, w.entries[i].transform)
			}
		}
		w.quality = 1
		k.encodeWOFF2(w, k.rng())
		for _, e := range w.entries {
			for i := 0; i < 6; i++ {
				fields = append(fields, [2]int{e.dirOffset + i, 1})
			}
		}
		if 1 < len(w.stream) {
			fields = append(fields, [2]int{w.streamOff + k.U(len(w.stream)), 1})
		}
		o.b = w.b
	case d < 90:
		o.kind = "EOT"
		m := k.genMutant(MutOpt{Mild: true})
		o.what = append(o.what, m.what...)
		e := k.genEOT(m.b)
		for _, off := range e.varOffs {
			fields = append(fields, [2]int{off, 2})
		}
		if e.eudcOff != 0 {
			fields = append(fields, [2]int{e.eudcOff, 4})
		}
		for i := 0; i < 4; i++ {
			fields = append(fields, [2]int{4 * i, 4})
		}
		o.b = e.b
	default:
		fns := realContainers()
		if len(fns) == 0 {
			k.c.bad("no WOFF files in /repo")
		}
		fn := fns[k.U(len(fns))]
		o.kind = "file"
		o.b = bytes.Clone(readFile(fn))
		o.log("%s", fn)
	}
	if o.kind != "EOT" {
		for i := 8; i < 48; i += 4 {
			fields = append(fields, [2]int{i, 4})
		}
		fields = append(fields, [2]int{12, 2}, [2]int{4, 4})
	}

	for ; 0 < count; count-- {
		if k.P(65) {
			f := fields[k.U(len(fields))]
			p, size := f[0], f[1]
			if len(o.b) < p+size {
				continue
			}
			var old uint64
			for i := 0; i < size; i++ {
				old = old<<8 | uint64(o.b[p+i])
			}
			v := k.genField(size, old, len(o.b))
			if o.kind == "EOT" && size == 4 && k.B() {
				v = uint64(k.U(len(o.b) + 10))
			}
			for i := 0; i < size; i++ {
				s := size - 1 - i
				if o.kind == "EOT" {
					s = i
				}
				o.b[p+i] = byte(v >> (8 * s))
			}
			o.log("u%d at %d from %#x to %#x", 8*size, p, old, v)
			o.reach = o.reach && 48 <= p && o.kind != "EOT"
		} else {
			var what string
			o.b, what = k.damage(o.b, nil)
			o.log("file: %s", what)
		}
	}
	if k.P(4) {
		n := k.U(len(o.b) + 1)
		o.b = o.b[:n:n]
		o.log("cut to %d", n)
	}
	if k.P(2) {
		o.b = append([]byte(pick(k, "wOFF", "wOF2")), k.blob(k.U(300))...)
		o.log("noise")
	}
	if k.P(75) && 24 < len(o.b) && (string(o.b[:4]) == "wOFF" || string(o.b[:4]) == "wOF2") {
		binary.BigEndian.PutUint32(o.b[8:], uint32(len(o.b)))
	}
	return o
}

func decodeLimit(n int, z int) uint64 {
	return 300*uint64(n) + 10*uint64(font.MaxMemory) + 60<<20 + uint64(z)*(64<<10)
}

// decode runs one of the decoders on the bytes.
func (k *Case) decode(b []byte, limit uint64) (out []byte, mode string) {
	in := bytes.Clone(b)
	parse := font.ToSFNT
	mode = "ToSFNT"
	tag := string(b[:min(4, len(b))])
	switch k.U(5) {
	case 0, 1:
		switch tag {
		case "wOFF":
			mode, parse = "ParseWOFF", font.ParseWOFF
		case "wOF2":
			mode, parse = "ParseWOFF2", font.ParseWOFF2
		default:
			mode, parse = "ParseEOT", font.ParseEOT
		}
	case 2:
		switch k.U(8) { // any decoder for any bytes
		case 0:
			mode, parse = "ParseWOFF", font.ParseWOFF
		case 1:
			mode, parse = "ParseWOFF2", font.ParseWOFF2
		case 2:
			mode, parse = "ParseEOT", font.ParseEOT
		case 3:
			mode = "NewSFNTReader"
			parse = func(b []byte) ([]byte, error) {
				r, err := font.NewSFNTReader(bytes.NewReader(b))
				if (r == nil) == (err == nil) {
					k.failf("NewSFNTReader: reader %v, error %v", r != nil, err)
				}
				if err != nil {
					return nil, err
				}
				out := make([]byte, r.Len())
				r.Read(out)
				return out, nil
			}
		}
	}
	var err error
	k.measured(mode, limit, func() { out, err = parse(b) })
	if out != nil && err != nil || out == nil && err == nil && 0 < len(b) && mode != "NewSFNTReader" && tag != "" && mode != "ParseEOT" && mode != "ToSFNT" {
		k.failf("%s: %d bytes, error %v", mode, len(out), err)
	}
	if err != nil {
		out = nil
	} else if out == nil {
		out = []byte{}
	}
	if !bytes.Equal(in, b) {
		k.failf("%s changed its input", mode)
	}
	var mt, ext string
	k.guard("MediaType", func() { mt, err = font.MediaType(b) })
	k.guard("Extension", func() { ext = font.Extension(b) })
	if (mt == "") == (err == nil) || (mt == "") != (ext == "") {
		k.failf("MediaType %q, error %v, Extension %q", mt, err, ext)
	}
	return
}

var bombs sync.Map

// bomb is a stream of n zeros (or another byte).
func bomb(kind string, n int, v byte) []byte {
	key := fmt.Sprint(kind, n, v)
	if b, ok := bombs.Load(key); ok {
		return b.([]byte)
	}
	var buf bytes.Buffer
	chunk := bytes.Repeat([]byte{v}, 1<<16)
	if kind == "zlib" {
		w, _ := zlib.NewWriterLevel(&buf, 1)
		for i := 0; i < n; i += len(chunk) {
			w.Write(chunk[:min(len(chunk), n-i)])
		}
		w.Close()
	} else {
		w := brotli.NewWriterLevel(&buf, 2)
		for i := 0; i < n; i += len(chunk) {
			w.Write(chunk[:min(len(chunk), n-i)])
		}
		w.Close()
	}
	bombs.Store(key, buf.Bytes())
	return buf.Bytes()
}

func TestP02(t *testing.T) {
	run(t, "P02", "the header of the damaged file is intact, so that the tables are decoded, or the file is decoded, or it is compressed data that expands", func(c *Ctx) {
		c.check("mutants", c.n(3200, 80000), func(k *Case) {
			o := k.genContainer(3)
			k.artifact("font", o.b)
			k.note("%v", o.what)
			out, mode := k.decode(o.b, decodeLimit(len(o.b), 40))
			k.class("%s by %s", o.kind, mode)
			if out == nil {
				k.class("%s refused", o.kind)
			} else {
				k.class("%s decoded", o.kind)
				if k.P(30) { // what comes out goes into the font parser
					k.measured("ParseSFNT of the result", parseLimit(len(out)), func() { font.ParseSFNT(out, 0) })
				}
			}
			if o.reach || out != nil {
				k.nontrivial(o.b, func() string { return fmt.Sprintf("%v: decoded %v", o, out != nil) })
			}
		})
		c.check("prefixes", c.n(24, 400), func(k *Case) {
			o := k.genContainer(0)
			k.artifact("font", o.b)
			step := 1 + len(o.b)/600
			tag := string(o.b[:min(4, len(o.b))])
			fix := k.B() && strings.HasPrefix(tag, "wOF")
			for n := k.U(step); n < len(o.b); n += step {
				b := bytes.Clone(o.b[:n])
				if fix && 12 <= n {
					binary.BigEndian.PutUint32(b[8:], uint32(n))
				}
				var out []byte
				var err error
				parse := map[string]func([]byte) ([]byte, error){"wOFF": font.ParseWOFF, "wOF2": font.ParseWOFF2}[tag]
				if parse == nil {
					parse = font.ParseEOT
				}
				k.guard(fmt.Sprintf("the first %d bytes", n), func() { out, err = parse(b) })
				if out != nil && err != nil {
					k.failf("the first %d bytes: %d bytes, error %v", n, len(out), err)
				}
			}
			k.class("prefixes of %s", o.kind)
			k.nontrivial(o.b, func() string { return fmt.Sprintf("%v: all prefixes, header fixed %v", o, fix) })
		})
		c.check("bombs", c.n(80, 1500), func(k *Case) { k.bombCase() })
		c.check("memory limit", c.n(200, 3000), func(k *Case) {
			f := k.genFont(FontOpt{MaxN: 10})
			f.bytes(k)
			total := 12 + 16*len(f.tables)
			var parse func([]byte) ([]byte, error)
			var b []byte
			kind := "WOFF"
			if k.B() {
				w := k.genWOFF(f.version(), f.tables)
				b, total, parse = w.b, w.total, font.ParseWOFF
			} else {
				kind = "WOFF2"
				w := k.genWOFF2(f)
				total = 0
				for _, e := range w.entries {
					total += len(e.data)
				}
				b, parse = w.b, font.ParseWOFF2
				total = max(total, int(be32(b, 16)))
			}
			k.artifact("font", b)
			old := font.MaxMemory
			defer func() { font.MaxMemory = old }()
			var out []byte
			var err error
			d := pick(k, -1, -100, -total/2)
			font.MaxMemory = uint32(max(0, total+d))
			k.guard("decoding under a tight limit", func() { out, err = parse(b) })
			if err == nil {
				k.failf("%s font that takes %d bytes is decoded with a limit of %d to %d bytes", kind, total, font.MaxMemory, len(out))
			}
			font.MaxMemory = uint32(total + pick(k, 0, 1, 1000))
			k.guard("decoding under a sufficient limit", func() { out, err = parse(b) })
			if err != nil {
				k.failf("%s font that takes %d bytes is refused with a limit of %d: %v", kind, total, font.MaxMemory, err)
			}
			k.class(kind)
			k.nontrivial(b, func() string { return fmt.Sprintf("%s of %d bytes that takes %d", kind, len(b), total) })
		})
		c.check("afm", c.n(3000, 60000), func(k *Case) {
			var b []byte
			if k.P(4) {
				fns, _ := filepath.Glob("/repo/resources/pdfcorefonts/*.afm")
				if len(fns) == 0 {
					k.c.bad("no bundled AFM files")
				}
				b = bytes.Clone(readFile(fns[k.U(len(fns))]))
				n := k.U(len(b))
				b = append(b[:min(n, 2000):min(n, 2000)], b[n:min(len(b), n+2000)]...)
			} else {
				_, text := k.genAFM()
				b = []byte(text)
			}
			reach := false
			for i := 1 + k.U(4); 0 < i; i-- {
				switch k.U(8) {
				case 0:
					b, _ = k.damage(b, nil)
				default:
					lines := bytes.SplitAfter(b, []byte("\n"))
					j := k.U(len(lines))
					switch k.U(6) {
					case 0:
						lines[j] = nil
					case 1:
						lines[j] = append(bytes.Clone(lines[j]), lines[j]...)
					case 2:
						j2 := k.U(len(lines))
						lines[j], lines[j2] = lines[j2], lines[j]
					default: // one word of the line
						words := strings.Fields(string(lines[j]))
						if len(words) == 0 {
							continue
						}
						l := k.U(len(words))
						switch k.U(4) {
						case 0:
							words = append(words[:l:l], words[l+1:]...)
						case 1:
							words = words[:l]
						case 2:
							words = append(words, words[l])
						default:
							words[l] = pick(k, "", ";", "-1", "65535", "65536", "99999999999999999999", "-32769", "1e300", "1e-5", "NaN", "Inf", "0x10", "-", ".", "<", "<41", "<4g>", "<FFFFF>", "StartCharMetrics", "EndFontMetrics", "C", "WX", "N", "L", "B", "KPX", "\x00", "\xff\xfe", strings.Repeat("9", 400))
						}
						lines[j] = []byte(strings.Join(words, " ") + "\n")
						reach = true
					}
					b = bytes.Join(lines, nil)
				}
			}
			k.artifact("font.afm", b)
			in := bytes.Clone(b)
			var a *font.AFM
			var err error
			k.measured("ParseAFM", 400*uint64(len(b))+uint64(font.MaxMemory), func() { a, err = font.ParseAFM(b) })
			if (a == nil) == (err == nil) {
				k.failf("ParseAFM: font %v, error %v", a != nil, err)
			}
			if !bytes.Equal(in, b) {
				k.failf("ParseAFM changed its input")
			}
			k.classIf(a != nil, "AFM accepted")
			k.classIf(a == nil, "AFM refused")
			if a != nil {
				k.guard("queries", func() { queryAFM(a) })
			}
			if reach || a != nil {
				k.nontrivial(b, func() string { return string(b[:min(len(b), 2000)]) })
			}
		})
	})
}

// bombCase: streams that expand to far more than the directory says, or to what it says but more than the limit.
func (k *Case) bombCase() {
	f := k.genFont(FontOpt{MaxN: 4, NoExtra: true})
	f.bytes(k)
	old := font.MaxMemory
	defer func() { font.MaxMemory = old }()
	font.MaxMemory = pick(k, old, 1<<20, 4<<20)
	size := pick(k, 64<<20, 128<<20, 256<<20)
	if font.MaxMemory == old {
		size = 512 << 20
	}
	honest := k.B()
	var b []byte
	what := ""
	if k.B() {
		w := k.genWOFF(f.version(), f.tables)
		what = "WOFF"
		d := bomb("zlib", size, 0)
		e := w.entries[k.U(len(w.entries))]
		off := len(w.b)
		b = append(bytes.Clone(w.b), d...)
		be := binary.BigEndian
		be.PutUint32(b[8:], uint32(len(b)))
		be.PutUint32(b[e.dirOffset+4:], uint32(off))
		be.PutUint32(b[e.dirOffset+8:], uint32(len(d)))
		claim := len(d) + 1 + k.U(1000) // a small size
		if honest {
			claim = size
		}
		be.PutUint32(b[e.dirOffset+12:], uint32(claim))
		be.PutUint32(b[e.dirOffset+16:], 0)
		be.PutUint32(b[16:], uint32(w.total-(e.orig+3)&^3+(claim+3)&^3))
		what = fmt.Sprintf("WOFF with %s of %d bytes that expands to %d, directory says %d", e.tag, len(d), size, claim)
	} else {
		w := k.genWOFF2(f)
		b = bytes.Clone(w.b[:w.streamOff])
		if honest { // an extra table
			be := binary.BigEndian
			x := &W{}
			x.u8(63)
			x.str("zzzz")
			x.base128(uint32(size))
			b = append(b, x.b...)
			be.PutUint16(b[12:], be.Uint16(b[12:])+1)
		}
		d := bomb("brotli", size, 0)
		b = append(b, d...)
		for len(b)%4 != 0 {
			b = append(b, 0)
		}
		be := binary.BigEndian
		be.PutUint32(b[8:], uint32(len(b)))
		be.PutUint32(b[20:], uint32(len(d)))
		what = fmt.Sprintf("WOFF2 with a stream of %d bytes that expands to %d, honest %v", len(d), size, honest)
	}
	if k.P(20) {
		binary.BigEndian.PutUint32(b[16:], pick[uint32](k, 0xFFFFFFFF, 1<<31, uint32(font.MaxMemory), uint32(font.MaxMemory)+1))
		what += ", total size changed"
	}
	k.note("%s, limit %d", what, font.MaxMemory)
	k.artifact("font", b[:min(len(b), 1<<20)])
	limit := 16*uint64(len(b)) + 6*uint64(font.MaxMemory) + 40<<20
	out, _ := k.decode(b, limit)
	if out != nil {
		k.failf("%s is decoded to %d bytes", what, len(out))
	}
	k.class("honest %v", honest)
	k.class(what[:5])
	k.nontrivial(b, func() string { return what })
}

func queryAFM(a *font.AFM) {
	a.NumGlyphs()
	for _, s := range []string{"", "A", ".notdef", "nonexistent", "a\xff"} {
		a.FindGlyphName(s)
	}
	for _, r := range []rune{-1, 0, 'A', 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 1<<31 - 1, -1 << 31} {
		a.GlyphIndex(r)
	}
	for g := 0; g < 1<<16; g += 1 + g/300 {
		a.GlyphName(uint16(g))
		a.GlyphAdvance(uint16(g))
		a.GlyphBounds(uint16(g))
		a.Kerning(uint16(g), uint16(g+1))
		a.Kerning(uint16(g), uint16(g))
	}
}
