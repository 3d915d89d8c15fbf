package harness

// Encoders from the font model to SFNT tables, drawing the choices the formats leave open.

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
)

// W is a big-endian byte writer.
type W struct{ b []byte }

func (w *W) u8(v int)       { w.b = append(w.b, byte(v)) }
func (w *W) u16(v int)      { w.b = append(w.b, byte(v>>8), byte(v)) }
func (w *W) u24(v int)      { w.b = append(w.b, byte(v>>16), byte(v>>8), byte(v)) }
func (w *W) u32(v uint32)   { w.b = binary.BigEndian.AppendUint32(w.b, v) }
func (w *W) i64(v int64)    { w.b = binary.BigEndian.AppendUint64(w.b, uint64(v)) }
func (w *W) bytes(p []byte) { w.b = append(w.b, p...) }
func (w *W) str(s string)   { w.b = append(w.b, s...) }
func (w *W) pad(n int) {
	for len(w.b)%n != 0 {
		w.b = append(w.b, 0)
	}
}

// rng supplies encoding choices from one drawn seed.
type rng struct{ s uint64 }

func (k *Case) rng() *rng { return &rng{genU64.Draw(k.T, "enc")} }
func (r *rng) n(n int) int {
	if r.s == 0 || n <= 1 {
		return 0
	}
	r.s = mix(r.s)
	return int(r.s % uint64(n))
}
func (r *rng) p(pct int) bool { return 100-pct <= r.n(100) }

// ---- glyf / loca ----

func encGlyph(r *rng, g *Glyph) []byte {
	if g.isEmpty() && !g.ZeroConts {
		return nil
	}
	w := &W{}
	if 0 < len(g.Comps) {
		w.u16(-1)
	} else {
		w.u16(len(g.Contours))
	}
	for _, v := range g.BBox {
		w.u16(v)
	}
	if 0 < len(g.Comps) {
		allInstr := r.p(30)
		for i, c := range g.Comps {
			flags := int(c.Flags) | 0x0002
			words := c.Words || c.DX < -128 || 127 < c.DX || c.DY < -128 || 127 < c.DY
			if words {
				flags |= 0x0001
			}
			if i+1 < len(g.Comps) {
				flags |= 0x0020
			}
			if g.HasInstr && (i+1 == len(g.Comps) || allInstr) {
				flags |= 0x0100
			}
			switch c.Kind {
			case 1:
				flags |= 0x0008
			case 2:
				flags |= 0x0040
			case 3:
				flags |= 0x0080
			}
			w.u16(flags)
			w.u16(c.GID)
			if words {
				w.u16(c.DX)
				w.u16(c.DY)
			} else {
				w.u8(c.DX)
				w.u8(c.DY)
			}
			switch c.Kind {
			case 1:
				w.u16(c.M[0])
			case 2:
				w.u16(c.M[0])
				w.u16(c.M[3])
			case 3:
				for _, m := range c.M {
					w.u16(m)
				}
			}
		}
		if g.HasInstr {
			w.u16(len(g.Instr))
			w.bytes(g.Instr)
		}
		return w.b
	}
	end := -1
	for _, c := range g.Contours {
		end += len(c)
		w.u16(end)
	}
	w.u16(len(g.Instr))
	w.bytes(g.Instr)
	mode := r.n(4) // 0 compact, 1 words, 2 random, 3 compact without repeats
	var flags []int
	var xs, ys W
	px, py := 0, 0
	coord := func(d, short, same int, v *W) int {
		useWord := mode == 1 || mode == 2 && r.p(30)
		if -256 < d && d < 256 && !useWord {
			if d == 0 && !(mode == 2 && r.p(30)) {
				return same
			}
			if d < 0 || d == 0 && r.p(50) {
				v.u8(-d)
				return short
			}
			v.u8(d)
			return short | same
		}
		v.u16(d)
		return 0
	}
	first := true
	for _, c := range g.Contours {
		for _, p := range c {
			f := 0
			if p.On {
				f |= 0x01
			}
			if first && g.Overlap {
				f |= 0x40
			}
			first = false
			f |= coord(p.X-px, 0x02, 0x10, &xs)
			f |= coord(p.Y-py, 0x04, 0x20, &ys)
			px, py = p.X, p.Y
			flags = append(flags, f)
		}
	}
	for i := 0; i < len(flags); {
		n := 1
		for i+n < len(flags) && flags[i+n] == flags[i] && n < 256 {
			n++
		}
		switch {
		case mode == 3 || mode == 1 && n < 3:
			w.u8(flags[i])
			i++
		case mode == 2:
			if r.p(30) {
				w.u8(flags[i])
				i++
				break
			}
			m := 1 + r.n(n) // may be a repeat of zero
			w.u8(flags[i] | 0x08)
			w.u8(m - 1)
			i += m
		case n < 2:
			w.u8(flags[i])
			i++
		default:
			w.u8(flags[i] | 0x08)
			w.u8(n - 1)
			i += n
		}
	}
	w.bytes(xs.b)
	w.bytes(ys.b)
	return w.b
}

// encGlyf encodes glyf and loca; f.LocaFmt 0 falls back to 1 when the table is too long.
func (f *Font) encGlyf(r *rng) (glyf, loca []byte) {
	g := &W{}
	var offs []int
	padAll := r.n(3) // 0: to 4, 1: minimal, 2: random
	for _, gl := range f.Glyphs {
		offs = append(offs, len(g.b))
		gl.data = encGlyph(r, gl)
		if len(gl.data) == 0 {
			continue
		}
		g.bytes(gl.data)
		switch {
		case padAll == 0:
			g.pad(4)
		case f.LocaFmt == 0:
			g.pad(2)
		}
		if padAll == 2 && r.p(20) {
			g.u16(0)
		}
	}
	offs = append(offs, len(g.b))
	if 131070 < len(g.b) {
		f.LocaFmt = 1
	}
	l := &W{}
	for _, o := range offs {
		if f.LocaFmt == 0 {
			l.u16(o / 2)
		} else {
			l.u32(uint32(o))
		}
	}
	return g.b, l.b
}

// ---- metrics ----

func (f *Font) encHmtx() []byte {
	w := &W{}
	for i, g := range f.Glyphs {
		if i < f.NHM {
			w.u16(g.Adv)
		}
		w.u16(g.LSB)
	}
	return w.b
}

func (f *Font) encVmtx() []byte {
	w := &W{}
	for i, g := range f.Glyphs {
		if i < f.NVM {
			w.u16(g.VAdv)
		}
		w.u16(g.TSB)
	}
	return w.b
}

func (h *HheaModel) enc(n int) []byte {
	w := &W{}
	w.u16(1)
	w.u16(h.Minor)
	for _, v := range []int{h.Asc, h.Desc, h.Gap, h.AdvMax, h.MinL, h.MinR, h.Ext, h.Rise, h.Run, h.Caret, 0, 0, 0, 0, h.Fmt, n} {
		w.u16(v)
	}
	return w.b
}

func (f *Font) encHead() []byte {
	h := &f.Head
	w := &W{}
	w.u32(0x00010000)
	w.u32(h.Revision)
	w.u32(h.ChecksumAdjustment)
	w.u32(0x5F0F3CF5)
	w.u16(h.Flags)
	w.u16(f.UPM)
	w.i64(h.Created)
	w.i64(h.Modified)
	for _, v := range h.BBox {
		w.u16(v)
	}
	w.u16(h.MacStyle)
	w.u16(h.Lowest)
	w.u16(h.Direction)
	w.u16(f.LocaFmt)
	w.u16(h.GlyphDataFmt)
	return w.b
}

func (f *Font) encMaxp() []byte {
	w := &W{}
	if f.CFF {
		w.u32(0x00005000)
		w.u16(f.N())
		return w.b
	}
	w.u32(0x00010000)
	w.u16(f.N())
	for _, v := range f.Maxp {
		w.u16(v)
	}
	return w.b
}

func (f *Font) encPost(k *Case) []byte {
	p := &f.Post
	w := &W{}
	w.u32(map[int]uint32{1: 0x00010000, 2: 0x00020000, 3: 0x00030000}[f.PostV])
	w.u32(uint32(p.Angle))
	w.u16(p.UPos)
	w.u16(p.UThick)
	w.u32(p.Fixed)
	w.u32(p.M42a)
	w.u32(p.M42b)
	w.u32(p.M1a)
	w.u32(p.M1b)
	if f.PostV != 2 {
		return w.b
	}
	w.u16(f.N())
	var strs []string
	pos := map[string]int{}
	if 0 < p.UnusedStrings {
		for i := 0; i < p.UnusedStrings; i++ {
			strs = append(strs, "unused"+string(rune('a'+i)))
		}
	}
	for _, g := range f.Glyphs {
		if i, ok := macIndex[g.Name]; ok && !p.CustomStd {
			w.u16(i)
			continue
		}
		i, ok := pos[g.Name]
		if !ok || p.DupStrings {
			i = len(strs)
			pos[g.Name] = i
			strs = append(strs, g.Name)
		}
		w.u16(258 + i)
	}
	for _, s := range strs {
		w.u8(len(s))
		w.str(s)
	}
	return w.b
}

func (f *Font) encName(r *rng) []byte {
	w := &W{}
	v := 0
	if f.NameV1 {
		v = 1
	}
	w.u16(v)
	w.u16(len(f.Names))
	so := 6 + 12*len(f.Names)
	if f.NameV1 {
		so += 2 + 4*len(f.LangTag)
	}
	w.u16(so)
	st := &W{}
	add := func(b []byte) int {
		if r.p(40) {
			if i := bytes.Index(st.b, b); 0 <= i { // shared storage
				return i
			}
		}
		o := len(st.b)
		st.bytes(b)
		return o
	}
	for _, n := range f.Names {
		o := add(n.Raw)
		for _, x := range []int{n.Platform, n.Encoding, n.Language, n.ID, len(n.Raw), o} {
			w.u16(x)
		}
	}
	if f.NameV1 {
		w.u16(len(f.LangTag))
		for _, t := range f.LangTag {
			b := utf16be(t)
			o := add(b)
			w.u16(len(b))
			w.u16(o)
		}
	}
	w.bytes(st.b)
	return w.b
}

func utf16be(s string) []byte {
	w := &W{}
	for _, r := range s {
		if 0x10000 <= r {
			r -= 0x10000
			w.u16(0xD800 | int(r>>10))
			w.u16(0xDC00 | int(r&0x3FF))
		} else {
			w.u16(int(r))
		}
	}
	return w.b
}

// ---- kern ----

func searchParams(n, size int) (sr, es, rs int) {
	if n == 0 {
		return 0, 0, 0
	}
	es = bits.Len(uint(n)) - 1
	sr = size << es
	return sr, es, n*size - sr
}

func (f *Font) encKern() []byte {
	w := &W{}
	if f.KernV1 {
		w.u32(0x00010000)
		w.u32(uint32(len(f.Kern)))
	} else {
		w.u16(0)
		w.u16(len(f.Kern))
	}
	for _, s := range f.Kern {
		b := &W{}
		if s.Format == 0 {
			sr, es, rs := searchParams(len(s.Pairs), 6)
			b.u16(len(s.Pairs))
			b.u16(sr)
			b.u16(es)
			b.u16(rs)
			for _, p := range s.Pairs {
				b.u16(p.L)
				b.u16(p.R)
				b.u16(p.V)
			}
			b.bytes(make([]byte, s.Trailing))
		} else {
			b.bytes(s.Raw)
		}
		if f.KernV1 {
			w.u32(uint32(8 + len(b.b)))
			cov := s.Format
			if s.Vertical {
				cov |= 0x8000
			}
			if s.Cross {
				cov |= 0x4000
			}
			if s.Other != 0 {
				cov |= 0x2000
			}
			w.u16(cov)
			w.u16(0)
		} else {
			w.u16(s.Other)
			w.u16(6 + len(b.b))
			cov := s.Format << 8
			if !s.Vertical {
				cov |= 1
			}
			if s.Minimum {
				cov |= 2
			}
			if s.Cross {
				cov |= 4
			}
			if s.Override {
				cov |= 8
			}
			w.u16(cov)
		}
		w.bytes(b.b)
	}
	return w.b
}

// refKern is the kerning the model defines for a pair.
func (f *Font) refKern(l, r int) int {
	k := 0
	for _, s := range f.Kern {
		if s.Format != 0 || s.Vertical || s.Cross || s.Other != 0 {
			continue
		}
		for _, p := range s.Pairs {
			if p.L != l || p.R != r {
				continue
			}
			switch {
			case s.Minimum:
				k = max(k, p.V)
			case s.Override:
				k = p.V
			default:
				k += p.V
			}
			break
		}
	}
	return k
}

// ---- cmap ----

func sortedRunes(m map[rune]int) []rune {
	rs := make([]rune, 0, len(m))
	for r := range m {
		rs = append(rs, r)
	}
	sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
	return rs
}

// encSub encodes one subtable; it may add entries with glyph 0 to the model map where the format
// covers more runes than were asked for.
func (s *Sub) enc(r *rng, numGlyphs int) []byte {
	w := &W{}
	switch s.Format {
	case 0:
		w.u16(0)
		w.u16(262)
		w.u16(r.n(3))
		for c := rune(0); c < 256; c++ {
			if _, ok := s.Map[c]; !ok {
				s.Map[c] = 0
			}
			w.u8(s.Map[c])
		}
	case 6:
		rs := sortedRunes(s.Map)
		lo, hi := 0, -1
		if 0 < len(rs) {
			lo, hi = int(rs[0]), int(rs[len(rs)-1])
		}
		w.u16(6)
		w.u16(10 + 2*(hi-lo+1))
		w.u16(r.n(2))
		w.u16(lo)
		w.u16(hi - lo + 1)
		for c := lo; c <= hi; c++ {
			if _, ok := s.Map[rune(c)]; !ok {
				s.Map[rune(c)] = 0
			}
			w.u16(s.Map[rune(c)])
		}
	case 4:
		s.enc4(w, r, numGlyphs)
	case 12:
		rs := sortedRunes(s.Map)
		type grp struct{ a, b, g uint32 }
		var gs []grp
		split := r.n(3) == 2
		for _, c := range rs {
			g := uint32(s.Map[c])
			if n := len(gs); 0 < n && gs[n-1].b+1 == uint32(c) && gs[n-1].g+(gs[n-1].b-gs[n-1].a)+1 == g && !(split && r.p(20)) {
				gs[n-1].b++
			} else {
				gs = append(gs, grp{uint32(c), uint32(c), g})
			}
		}
		w.u16(12)
		w.u16(0)
		w.u32(uint32(16 + 12*len(gs)))
		w.u32(uint32(r.n(2)))
		w.u32(uint32(len(gs)))
		for _, g := range gs {
			w.u32(g.a)
			w.u32(g.b)
			w.u32(g.g)
		}
	case 14:
		w.u16(14)
		w.u32(10)
		w.u32(0)
	}
	s.data = w.b
	return w.b
}

func (s *Sub) enc4(w *W, r *rng, numGlyphs int) {
	delete(s.Map, 0xFFFF)
	rs := sortedRunes(s.Map)
	type seg struct {
		a, b   int
		gids   []int
		array  bool
		delta  int
		ro     int
		arrPos int
	}
	var segs []seg
	bridge := r.n(4)   // allow small gaps covered with glyph 0
	shatter := r.n(12) // split often
	mode := r.n(4)     // 0 delta where possible, 1 arrays always, 2/3 mixed
	for i := 0; i < len(rs); {
		a := int(rs[i])
		sg := seg{a: a, b: a, gids: []int{s.Map[rs[i]]}}
		i++
		contiguous := true
		for i < len(rs) {
			c := int(rs[i])
			gap := c - sg.b - 1
			if gap != 0 && !(bridge == 3 && gap <= 3) {
				break
			}
			if shatter == 11 && r.p(30) {
				break
			}
			g := s.Map[rs[i]]
			isC := gap == 0 && g == sg.gids[len(sg.gids)-1]+1
			if contiguous && !isC && 2 <= len(sg.gids) && mode != 1 && r.p(60) {
				break // keep the delta segment
			}
			contiguous = contiguous && isC
			for x := sg.b + 1; x < c; x++ {
				sg.gids = append(sg.gids, 0)
				s.Map[rune(x)] = 0
			}
			sg.gids = append(sg.gids, g)
			sg.b = c
			i++
		}
		isDelta := true
		for j := 1; j < len(sg.gids); j++ {
			if sg.gids[j] != sg.gids[j-1]+1 {
				isDelta = false
			}
		}
		sg.array = !isDelta || mode == 1 || 2 <= mode && r.p(30)
		if !sg.array {
			sg.delta = sg.gids[0] - sg.a
		}
		segs = append(segs, sg)
	}
	segs = append(segs, seg{a: 0xFFFF, b: 0xFFFF, gids: []int{0}, delta: 1})
	s.Map[0xFFFF] = 0
	var arr []int
	useDelta := r.n(3) == 2
	share := r.n(2) == 1
	for i := range segs {
		sg := &segs[i]
		if !sg.array {
			continue
		}
		vals := append([]int{}, sg.gids...)
		if useDelta && r.p(60) {
			// an array segment with a delta: non-zero entries are stored relative to it
			lo, hi := 65536, 0
			for _, v := range vals {
				if v != 0 {
					lo, hi = min(lo, v), max(hi, v)
				}
			}
			if lo <= hi && 0 < lo-1 {
				d := 1 + r.n(lo-1) // stored = gid-d stays in 1..
				sg.delta = d
				for j := range vals {
					if vals[j] != 0 {
						vals[j] -= d
					}
				}
			} else if lo <= hi && hi+1 < numGlyphs {
				d := 1 + r.n(numGlyphs-1-hi)
				sg.delta = -d
				for j := range vals {
					if vals[j] != 0 {
						vals[j] += d
					}
				}
			}
		}
		sg.arrPos = -1
		if share {
			for o := 0; o+len(vals) <= len(arr); o++ {
				same := true
				for j := range vals {
					if arr[o+j] != vals[j] {
						same = false
						break
					}
				}
				if same {
					sg.arrPos = o
					break
				}
			}
		}
		if sg.arrPos < 0 {
			sg.arrPos = len(arr)
			arr = append(arr, vals...)
		}
	}
	n := len(segs)
	sr, es, rs2 := searchParams(n, 2)
	w.u16(4)
	w.u16((16 + 8*n + 2*len(arr)) & 0xFFFF)
	w.u16(r.n(2))
	w.u16(2 * n)
	w.u16(sr)
	w.u16(es)
	w.u16(rs2)
	for _, g := range segs {
		w.u16(g.b)
	}
	w.u16(0)
	for _, g := range segs {
		w.u16(g.a)
	}
	for _, g := range segs {
		w.u16(g.delta)
	}
	for i, g := range segs {
		if g.array {
			w.u16(2 * (n - i + g.arrPos))
		} else {
			w.u16(0)
		}
	}
	for _, v := range arr {
		w.u16(v)
	}
}

func (f *Font) encCmap(r *rng) []byte {
	w := &W{}
	type rec struct{ p, e, i int }
	var recs []rec
	for i, s := range f.Subs {
		recs = append(recs, rec{s.Platform, s.Encoding, i})
		for _, m := range s.more {
			recs = append(recs, rec{m[0], m[1], i})
		}
	}
	// the subtables' order of first appearance stays the model's order
	w.u16(0)
	w.u16(len(recs))
	body := &W{}
	base := 4 + 8*len(recs)
	offs := make([]int, len(f.Subs))
	order := make([]int, len(f.Subs))
	for i := range order {
		order[i] = i
	}
	if r.n(4) == 3 { // subtable data in another order than the records
		for i := len(order) - 1; 0 < i; i-- {
			j := r.n(i + 1)
			order[i], order[j] = order[j], order[i]
		}
	}
	pad := r.n(3) != 2
	for _, i := range order {
		offs[i] = base + len(body.b)
		body.bytes(f.Subs[i].enc(r, f.N()))
		if pad {
			for (base+len(body.b))%4 != 0 {
				body.u8(0)
			}
		}
	}
	for _, c := range recs {
		w.u16(c.p)
		w.u16(c.e)
		w.u32(uint32(offs[c.i]))
	}
	w.bytes(body.b)
	return w.b
}

// runeMap is what rune lookup answers by the documented rule, and the runes on which two readings of
// it differ (covered with glyph 0 first and with another glyph later).
func (f *Font) runeMap() (m map[rune]int, ambiguous map[rune]bool) {
	m, ambiguous = map[rune]int{}, map[rune]bool{}
	for _, s := range f.Subs {
		if s.Format == 14 {
			continue
		}
		for r, g := range s.Map {
			if old, ok := m[r]; !ok {
				m[r] = g
			} else if old == 0 && g != 0 {
				ambiguous[r] = true
			}
		}
	}
	return m, ambiguous
}

// ---- OS/2 ----

func (o *OS2Model) size() int {
	switch o.Version {
	case 0:
		if o.Short {
			return 68
		}
		return 78
	case 1:
		return 86
	case 5:
		return 100
	}
	return 96
}

// ---- the file ----

// encTables encodes every table of the font.
func (f *Font) encTables(k *Case) map[string][]byte {
	r := k.rng()
	t := map[string][]byte{}
	if f.CFF {
		t["CFF "] = f.CFFM.enc(k, f)
	} else {
		t["glyf"], t["loca"] = f.encGlyf(r)
	}
	t["hmtx"] = f.encHmtx()
	t["hhea"] = f.Hhea.enc(f.NHM)
	if 0 < f.NVM {
		t["vhea"] = f.Vhea.enc(f.NVM)
		t["vmtx"] = f.encVmtx()
	}
	t["head"] = f.encHead()
	t["maxp"] = f.encMaxp()
	t["post"] = f.encPost(k)
	t["name"] = f.encName(r)
	t["cmap"] = f.encCmap(r)
	if f.HasKern {
		t["kern"] = f.encKern()
	}
	if f.HasOS2 {
		b := append([]byte{}, f.OS2.F[:f.OS2.size()]...)
		binary.BigEndian.PutUint16(b, uint16(f.OS2.Version))
		t["OS/2"] = b
	}
	for tag, b := range f.Extra {
		t[tag] = b
	}
	f.tables = t
	return t
}

func (f *Font) version() string {
	if f.CFF {
		return "OTTO"
	}
	if f.TrueTag {
		return "true"
	}
	return "\x00\x01\x00\x00"
}

func sortedTags(t map[string][]byte) []string {
	var tags []string
	for tag := range t {
		tags = append(tags, tag)
	}
	sort.Strings(tags)
	return tags
}

func checksum(b []byte) uint32 {
	var s uint32
	for i := 0; i < len(b); i += 4 {
		var q [4]byte
		copy(q[:], b[i:])
		s += binary.BigEndian.Uint32(q[:])
	}
	return s
}

// buildSFNT assembles tables in the given data order (directory always sorted) with valid checksums.
func buildSFNT(version string, tables map[string][]byte, order []string) []byte {
	tags := sortedTags(tables)
	if order == nil {
		order = tags
	}
	n := len(tags)
	w := &W{}
	w.str(version)
	sr, es, rs := searchParams(n, 16)
	w.u16(n)
	w.u16(sr)
	w.u16(es)
	w.u16(rs)
	off := 12 + 16*n
	offs := map[string]int{}
	for _, t := range order {
		offs[t] = off
		off += (len(tables[t]) + 3) &^ 3
	}
	for _, t := range tags {
		b := tables[t]
		if t == "head" && 12 <= len(b) {
			b = append([]byte{}, b...)
			copy(b[8:12], []byte{0, 0, 0, 0})
		}
		w.str(t)
		w.u32(checksum(b))
		w.u32(uint32(offs[t]))
		w.u32(uint32(len(b)))
	}
	for _, t := range order {
		b := tables[t]
		if t == "head" && 12 <= len(b) {
			b = append([]byte{}, b...)
			copy(b[8:12], []byte{0, 0, 0, 0})
		}
		w.bytes(b)
		w.pad(4)
	}
	if o, ok := offs["head"]; ok && 12 <= len(tables["head"]) {
		binary.BigEndian.PutUint32(w.b[o+8:], 0xB1B0AFBA-checksum(w.b))
	}
	return w.b
}

// shuffle draws an order of the tags.
func (k *Case) shuffle(tags []string) []string {
	t := append([]string{}, tags...)
	for i := len(t) - 1; 0 < i; i-- {
		j := i - k.U(i+1)
		t[i], t[j] = t[j], t[i]
	}
	return t
}

// bytes encodes the font as an SFNT file.
func (f *Font) bytes(k *Case) []byte {
	t := f.encTables(k)
	var order []string
	if k.B() {
		order = k.shuffle(sortedTags(t))
	}
	b := buildSFNT(f.version(), t, order)
	// the tables as stored carry the whole-file adjustment in head
	d, err := refDirectory(b)
	if err != nil {
		panic(fmt.Sprintf("harness built a bad SFNT: %v", err))
	}
	f.tables = d.tables()
	return b
}
