package harness

// Reference CFF reader and Type 2 charstring interpreter, written from the specifications.

import (
	"fmt"
	"strconv"
)

type refCFF struct {
	name       string
	strings    [][]byte
	globals    [][]byte
	chars      [][]byte
	top        map[int][]float64
	topOrder   []int
	priv       []map[int][]float64
	locals     [][][]byte
	fdsel      []int
	names      []string
	charsetRaw []int
}

func refINDEX(b []byte, p int) (items [][]byte, end int, err error) {
	if p < 0 || len(b) < p+2 {
		return nil, 0, fmt.Errorf("INDEX at %d outside %d bytes", p, len(b))
	}
	n := be16(b, p)
	if n == 0 {
		return nil, p + 2, nil
	}
	if len(b) < p+3 {
		return nil, 0, fmt.Errorf("INDEX at %d cut off", p)
	}
	sz := int(b[p+2])
	if sz < 1 || 4 < sz || len(b) < p+3+(n+1)*sz {
		return nil, 0, fmt.Errorf("INDEX at %d: offSize %d for %d entries", p, sz, n)
	}
	off := func(i int) int {
		v := 0
		for j := 0; j < sz; j++ {
			v = v<<8 | int(b[p+3+i*sz+j])
		}
		return v
	}
	base := p + 3 + (n+1)*sz - 1
	if off(0) != 1 {
		return nil, 0, fmt.Errorf("INDEX at %d: first offset %d", p, off(0))
	}
	for i := 0; i < n; i++ {
		a, z := off(i), off(i+1)
		if z < a || len(b) < base+z {
			return nil, 0, fmt.Errorf("INDEX at %d: entry %d spans %d to %d", p, i, a, z)
		}
		items = append(items, b[base+a:base+z])
	}
	return items, base + off(n), nil
}

func refDICT(b []byte) (map[int][]float64, []int, error) {
	d := map[int][]float64{}
	var order []int
	var st []float64
	for i := 0; i < len(b); {
		c := int(b[i])
		i++
		need := func(n int) bool { return i+n <= len(b) }
		switch {
		case c <= 21:
			if c == 12 {
				if !need(1) {
					return nil, nil, fmt.Errorf("cut operator")
				}
				c = 256 + int(b[i])
				i++
			}
			d[c] = st
			order = append(order, c)
			st = nil
		case c == 28:
			if !need(2) {
				return nil, nil, fmt.Errorf("cut number")
			}
			st = append(st, float64(bei16(b, i)))
			i += 2
		case c == 29:
			if !need(4) {
				return nil, nil, fmt.Errorf("cut number")
			}
			st = append(st, float64(int32(be32(b, i))))
			i += 4
		case c == 30:
			s := ""
			for done := false; !done; i++ {
				if !need(1) {
					return nil, nil, fmt.Errorf("cut real")
				}
				for _, x := range []byte{b[i] >> 4, b[i] & 15} {
					switch {
					case done:
					case x < 10:
						s += string(rune('0' + x))
					case x == 10:
						s += "."
					case x == 11:
						s += "E"
					case x == 12:
						s += "E-"
					case x == 14:
						s += "-"
					case x == 15:
						done = true
					default:
						return nil, nil, fmt.Errorf("reserved nibble in real")
					}
				}
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil {
				return nil, nil, fmt.Errorf("bad real %q", s)
			}
			st = append(st, f)
		case 32 <= c && c <= 246:
			st = append(st, float64(c-139))
		case 247 <= c && c <= 250 && need(1):
			st = append(st, float64((c-247)*256+int(b[i])+108))
			i++
		case 251 <= c && c <= 254 && need(1):
			st = append(st, float64(-(c-251)*256-int(b[i])-108))
			i++
		default:
			return nil, nil, fmt.Errorf("byte %d in DICT", c)
		}
		if 48 < len(st) {
			return nil, nil, fmt.Errorf("more than 48 operands")
		}
	}
	if len(st) != 0 {
		return nil, nil, fmt.Errorf("operands without operator")
	}
	return d, order, nil
}

func (c *refCFF) str(sid int) (string, error) {
	if sid < 0 {
		return "", fmt.Errorf("SID %d", sid)
	}
	if sid < len(cffStd) {
		return cffStd[sid], nil
	}
	if len(c.strings) <= sid-len(cffStd) {
		return "", fmt.Errorf("SID %d with %d strings", sid, len(c.strings))
	}
	return string(c.strings[sid-len(cffStd)]), nil
}

func refParseCFF(b []byte) (*refCFF, error) {
	c := &refCFF{}
	if len(b) < 4 || b[0] != 1 || b[1] != 0 || b[2] != 4 || b[3] < 1 || 4 < b[3] {
		return nil, fmt.Errorf("bad header")
	}
	names, p, err := refINDEX(b, 4)
	if err != nil {
		return nil, fmt.Errorf("Name %v", err)
	}
	if len(names) != 1 {
		return nil, fmt.Errorf("%d names", len(names))
	}
	c.name = string(names[0])
	tops, p, err := refINDEX(b, p)
	if err != nil {
		return nil, fmt.Errorf("Top DICT %v", err)
	}
	if len(tops) != 1 {
		return nil, fmt.Errorf("%d Top DICTs", len(tops))
	}
	if c.strings, p, err = refINDEX(b, p); err != nil {
		return nil, fmt.Errorf("String %v", err)
	}
	if c.globals, _, err = refINDEX(b, p); err != nil {
		return nil, fmt.Errorf("Global Subr %v", err)
	}
	if c.top, c.topOrder, err = refDICT(tops[0]); err != nil {
		return nil, fmt.Errorf("Top DICT: %v", err)
	}
	one := func(d map[int][]float64, op, i int) (int, error) {
		v := d[op]
		if len(v) <= i {
			return 0, fmt.Errorf("operator %d has %d operands", op, len(v))
		}
		return int(v[i]), nil
	}
	cso, err := one(c.top, 17, 0)
	if err != nil {
		return nil, err
	}
	if c.chars, _, err = refINDEX(b, cso); err != nil {
		return nil, fmt.Errorf("CharStrings %v", err)
	}
	n := len(c.chars)
	private := func(v []float64) error {
		if len(v) != 2 {
			return fmt.Errorf("Private operator has %d operands", len(v))
		}
		size, off := int(v[0]), int(v[1])
		if size < 0 || off < 0 || len(b) < off+size {
			return fmt.Errorf("Private DICT at %d+%d outside %d bytes", off, size, len(b))
		}
		d, _, err := refDICT(b[off : off+size])
		if err != nil {
			return fmt.Errorf("Private DICT: %v", err)
		}
		c.priv = append(c.priv, d)
		var ls [][]byte
		if s, ok := d[19]; ok {
			if len(s) != 1 {
				return fmt.Errorf("Subrs operator has %d operands", len(s))
			}
			if ls, _, err = refINDEX(b, off+int(s[0])); err != nil {
				return fmt.Errorf("Local Subr %v", err)
			}
		}
		c.locals = append(c.locals, ls)
		return nil
	}
	c.fdsel = make([]int, n)
	_, cid := c.top[256+30]
	if !cid {
		if err := private(c.top[18]); err != nil {
			return nil, err
		}
	} else {
		fa, err := one(c.top, 256+36, 0)
		if err != nil {
			return nil, err
		}
		fds, _, err := refINDEX(b, fa)
		if err != nil {
			return nil, err
		}
		for _, fd := range fds {
			d, _, err := refDICT(fd)
			if err != nil {
				return nil, fmt.Errorf("Font DICT: %v", err)
			}
			if err := private(d[18]); err != nil {
				return nil, err
			}
		}
		fs, err := one(c.top, 256+37, 0)
		if err != nil {
			return nil, err
		}
		if fs < 0 || len(b) <= fs {
			return nil, fmt.Errorf("FDSelect at %d", fs)
		}
		switch b[fs] {
		case 0:
			if len(b) < fs+1+n {
				return nil, fmt.Errorf("FDSelect cut off")
			}
			for i := range c.fdsel {
				c.fdsel[i] = int(b[fs+1+i])
			}
		case 3:
			nr := be16(b, fs+1)
			for r := 0; r < nr; r++ {
				p := fs + 3 + 3*r
				for g := be16(b, p); g < be16(b, p+3) && g < n; g++ {
					c.fdsel[g] = int(b[p+2])
				}
			}
		default:
			return nil, fmt.Errorf("FDSelect format %d", b[fs])
		}
		for _, fd := range c.fdsel {
			if len(c.priv) <= fd {
				return nil, fmt.Errorf("FD %d of %d", fd, len(c.priv))
			}
		}
	}
	// charset
	c.names = make([]string, n)
	if 0 < n {
		c.names[0] = ".notdef"
	}
	co := 0
	if v := c.top[15]; 0 < len(v) {
		co = int(v[0])
	}
	switch {
	case co == 0:
		if 229 < n {
			return nil, fmt.Errorf("ISOAdobe charset with %d glyphs", n)
		}
		copy(c.names, cffStd)
	case co < 3:
		return nil, fmt.Errorf("expert charset")
	case n <= 1:
	default:
		if len(b) <= co {
			return nil, fmt.Errorf("charset at %d", co)
		}
		format := b[co]
		p := co + 1
		set := func(i, sid int) error {
			c.charsetRaw = append(c.charsetRaw, sid)
			if cid {
				return nil
			}
			s, err := c.str(sid)
			c.names[i] = s
			return err
		}
		for i := 1; i < n; {
			if format == 0 {
				if len(b) < p+2 {
					return nil, fmt.Errorf("charset cut off")
				}
				if err := set(i, be16(b, p)); err != nil {
					return nil, err
				}
				p += 2
				i++
				continue
			}
			sz := 3
			if format == 2 {
				sz = 4
			} else if format != 1 {
				return nil, fmt.Errorf("charset format %d", format)
			}
			if len(b) < p+sz {
				return nil, fmt.Errorf("charset cut off")
			}
			first, left := be16(b, p), int(b[p+2])
			if format == 2 {
				left = be16(b, p+2)
			}
			p += sz
			for j := 0; j <= left; j++ {
				if n <= i {
					return nil, fmt.Errorf("charset names more than %d glyphs", n)
				}
				if err := set(i, first+j); err != nil {
					return nil, err
				}
				i++
			}
		}
	}
	return c, nil
}

type t2state struct {
	c      *refCFF
	locals [][]byte
	stack  []int64
	path   []Seg
	x, y   int64
	hints  int
	moved  bool
	gotW   bool
	hasW   bool
	width  int64
	open   bool
	steps  int
	raw    map[int]int
}

func (c *refCFF) path(gid int) ([]Seg, error) {
	if gid < 0 || len(c.chars) <= gid {
		return nil, fmt.Errorf("no glyph %d", gid)
	}
	s := &t2state{c: c, locals: c.locals[c.fdsel[gid]], raw: map[int]int{}}
	done, err := s.run(c.chars[gid], 0)
	if err != nil {
		return nil, err
	}
	if !done {
		return nil, fmt.Errorf("no endchar")
	}
	return s.path, nil
}

func (s *t2state) close() {
	if s.open {
		s.path = append(s.path, Seg{Op: 'Z'})
		s.open = false
	}
}

func (s *t2state) move(dx, dy int64) {
	s.close()
	s.x += dx
	s.y += dy
	s.path = append(s.path, Seg{'M', [6]float64{fx(s.x), fx(s.y)}})
	s.open = true
	s.moved = true
}

func (s *t2state) line(dx, dy int64) {
	s.x += dx
	s.y += dy
	s.path = append(s.path, Seg{'L', [6]float64{fx(s.x), fx(s.y)}})
}

func (s *t2state) curve(a, b, c, d, e, f int64) {
	x1, y1 := s.x+a, s.y+b
	x2, y2 := x1+c, y1+d
	s.x, s.y = x2+e, y2+f
	s.path = append(s.path, Seg{'C', [6]float64{fx(x1), fx(y1), fx(x2), fx(y2), fx(s.x), fx(s.y)}})
}

// takeWidth removes the width operand when there is one argument more than the operator takes.
func (s *t2state) takeWidth(extra bool) {
	if !s.gotW {
		s.gotW = true
		if extra {
			s.hasW = true
			s.width = s.stack[0]
			s.stack = s.stack[1:]
		}
	}
}

func (s *t2state) run(b []byte, depth int) (done bool, err error) {
	if 10 < depth {
		return false, fmt.Errorf("subroutines nested deeper than 10")
	}
	for i := 0; i < len(b); {
		if s.steps++; 1000000 < s.steps {
			return false, fmt.Errorf("too long")
		}
		c := int(b[i])
		i++
		cut := func(n int) bool { return len(b) < i+n }
		if c >= 32 || c == 28 {
			var v int64
			switch {
			case c == 28:
				if cut(2) {
					return false, fmt.Errorf("cut number")
				}
				v = int64(bei16(b, i)) * one16
				i += 2
			case c <= 246:
				v = int64(c-139) * one16
			case c == 255:
				if cut(4) {
					return false, fmt.Errorf("cut number")
				}
				v = int64(int32(be32(b, i)))
				i += 4
			default:
				if cut(1) {
					return false, fmt.Errorf("cut number")
				}
				if c <= 250 {
					v = int64((c-247)*256+int(b[i])+108) * one16
				} else {
					v = int64(-(c-251)*256-int(b[i])-108) * one16
				}
				i++
			}
			s.stack = append(s.stack, v)
			if 48 < len(s.stack) {
				return false, fmt.Errorf("stack overflow")
			}
			continue
		}
		if c == 12 {
			if cut(1) {
				return false, fmt.Errorf("cut operator")
			}
			c = 256 + int(b[i])
			i++
		}
		s.raw[c]++
		switch c {
		case 10, 29:
			if len(s.stack) == 0 {
				return false, fmt.Errorf("call without index")
			}
			subrs := s.locals
			if c == 29 {
				subrs = s.c.globals
			}
			n := s.stack[len(s.stack)-1]
			s.stack = s.stack[:len(s.stack)-1]
			idx := int(n/one16) + t2bias(len(subrs))
			if n%one16 != 0 || idx < 0 || len(subrs) <= idx {
				return false, fmt.Errorf("subroutine %d of %d", idx, len(subrs))
			}
			if done, err := s.run(subrs[idx], depth+1); done || err != nil {
				return done, err
			}
			continue
		case 11:
			if depth == 0 {
				return false, fmt.Errorf("return outside subroutine")
			}
			return false, nil
		case 1, 3, 18, 23:
			s.takeWidth(len(s.stack)%2 == 1)
			if len(s.stack)%2 != 0 || len(s.stack) == 0 || s.moved {
				return false, fmt.Errorf("stem operator with %d operands", len(s.stack))
			}
			s.hints += len(s.stack) / 2
		case 19, 20:
			s.takeWidth(len(s.stack)%2 == 1)
			if len(s.stack)%2 != 0 || s.moved && 0 < len(s.stack) {
				return false, fmt.Errorf("mask operator with %d operands", len(s.stack))
			}
			s.hints += len(s.stack) / 2
			n := (s.hints + 7) / 8
			if cut(n) {
				return false, fmt.Errorf("cut mask")
			}
			i += n
		case 14:
			s.takeWidth(len(s.stack) == 1 || len(s.stack) == 5)
			if len(s.stack) != 0 {
				return false, fmt.Errorf("endchar with %d operands", len(s.stack))
			}
			s.close()
			return true, nil
		default:
			if err := s.draw(c); err != nil {
				return false, err
			}
		}
		s.stack = s.stack[:0]
	}
	if depth == 0 {
		return false, nil
	}
	return false, fmt.Errorf("subroutine without return")
}

func (s *t2state) draw(c int) error {
	a := s.stack
	n := len(a)
	bad := fmt.Errorf("operator %d with %d operands", c, n)
	switch c {
	case 21, 22, 4:
		want := 1
		if c == 21 {
			want = 2
		}
		s.takeWidth(n == want+1)
		a = s.stack
		if len(a) != want {
			return bad
		}
		switch c {
		case 21:
			s.move(a[0], a[1])
		case 22:
			s.move(a[0], 0)
		case 4:
			s.move(0, a[0])
		}
		return nil
	}
	if !s.moved {
		return fmt.Errorf("operator %d before moveto", c)
	}
	switch c {
	case 5:
		if n < 2 || n%2 != 0 {
			return bad
		}
		for i := 0; i < n; i += 2 {
			s.line(a[i], a[i+1])
		}
	case 6, 7:
		if n == 0 {
			return bad
		}
		for i, v := range a {
			if (c == 6) == (i%2 == 0) {
				s.line(v, 0)
			} else {
				s.line(0, v)
			}
		}
	case 8:
		if n < 6 || n%6 != 0 {
			return bad
		}
		for i := 0; i < n; i += 6 {
			s.curve(a[i], a[i+1], a[i+2], a[i+3], a[i+4], a[i+5])
		}
	case 24:
		if n < 8 || n%6 != 2 {
			return bad
		}
		for i := 0; i+2 < n; i += 6 {
			s.curve(a[i], a[i+1], a[i+2], a[i+3], a[i+4], a[i+5])
		}
		s.line(a[n-2], a[n-1])
	case 25:
		if n < 8 || n%2 != 0 {
			return bad
		}
		for i := 0; i < n-6; i += 2 {
			s.line(a[i], a[i+1])
		}
		s.curve(a[n-6], a[n-5], a[n-4], a[n-3], a[n-2], a[n-1])
	case 26, 27:
		if n < 4 || 1 < n%4 {
			return bad
		}
		var e int64
		if n%4 == 1 {
			e, a = a[0], a[1:]
		}
		for i := 0; i < len(a); i += 4 {
			if c == 26 {
				s.curve(e, a[i], a[i+1], a[i+2], 0, a[i+3])
			} else {
				s.curve(a[i], e, a[i+1], a[i+2], a[i+3], 0)
			}
			e = 0
		}
	case 30, 31:
		if n < 4 || 1 < n%4 {
			return bad
		}
		h := c == 31
		for i := 0; i+4 <= n; i += 4 {
			var e int64
			if i+5 == n {
				e = a[i+4]
			}
			if h {
				s.curve(a[i], 0, a[i+1], a[i+2], e, a[i+3])
			} else {
				s.curve(0, a[i], a[i+1], a[i+2], a[i+3], e)
			}
			h = !h
		}
	case 256 + 35:
		if n != 13 {
			return bad
		}
		s.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		s.curve(a[6], a[7], a[8], a[9], a[10], a[11])
	case 256 + 34:
		if n != 7 {
			return bad
		}
		s.curve(a[0], 0, a[1], a[2], a[3], 0)
		s.curve(a[4], 0, a[5], -a[2], a[6], 0)
	case 256 + 36:
		if n != 9 {
			return bad
		}
		s.curve(a[0], a[1], a[2], a[3], a[4], 0)
		s.curve(a[5], 0, a[6], a[7], a[8], -(a[1] + a[3] + a[7]))
	case 256 + 37:
		if n != 11 {
			return bad
		}
		dx := a[0] + a[2] + a[4] + a[6] + a[8]
		dy := a[1] + a[3] + a[5] + a[7] + a[9]
		s.curve(a[0], a[1], a[2], a[3], a[4], a[5])
		if abs64(dy) < abs64(dx) {
			s.curve(a[6], a[7], a[8], a[9], a[10], -dy)
		} else {
			s.curve(a[6], a[7], a[8], a[9], -dx, a[10])
		}
	default:
		return fmt.Errorf("operator %d", c)
	}
	return nil
}

func abs64(v int64) int64 {
	if v < 0 {
		return -v
	}
	return v
}
