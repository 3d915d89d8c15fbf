package harness

// CFF fonts: Type 2 charstring programs generated together with the path they draw, factored into
// subroutines, and encoded with the choices the format leaves open.

import (
	"fmt"
	"strconv"
)

// t2tok is one token of a charstring: a number (16.16), an operator (with its mask bytes), or a call.
type t2tok struct {
	isNum bool
	v     int64 // 16.16
	op    int   // 12 x is 256+x
	mask  []byte
	call  int // 1 local, 2 global: v is the subroutine's number in the model
	long  int // number encoding choice
}

// T2Glyph is a generated charstring: its tokens and its path (in font units).
type T2Glyph struct {
	toks  []t2tok
	Path  []Seg
	width int
	ops   map[int]bool
}

// CFFNum is a DICT operand: either an integer or a real given by its text.
type CFFNum struct {
	I    int
	Real string
}

func (n CFFNum) val() float64 {
	if n.Real == "" {
		return float64(n.I)
	}
	f, err := strconv.ParseFloat(n.Real, 64)
	if err != nil {
		panic(err)
	}
	return f
}

type DictOp struct {
	Op   int
	Args []CFFNum
	Str  string // operand is this string's SID
	IsS  bool
	Ref  []string // operands are layout values by name
}

type CFFPrivate struct {
	Ops    []DictOp
	Locals []*t2subr
	HasL   bool
	size   int
}

type t2subr struct {
	fd    int
	toks  []t2tok
	final bool // ends with endchar
	idx   int  // its index
}

type CFFModel struct {
	Name     string
	Top      []DictOp
	ISOAdobe bool
	Unused   int
	CID      bool
	Priv     []*CFFPrivate
	FDSel    []int
	Globals  []*t2subr
	NGlobal  int // size of the INDEX including fillers
	NLocal   int
	Subrs    bool
	Plain    bool
}

func (m *CFFModel) topOp(op int) *DictOp {
	for i := range m.Top {
		if m.Top[i].Op == op {
			return &m.Top[i]
		}
	}
	return nil
}

func (p *CFFPrivate) op(op int) *DictOp {
	for i := range p.Ops {
		if p.Ops[i].Op == op {
			return &p.Ops[i]
		}
	}
	return nil
}

// ---- charstring generation ----

const one16 = 1 << 16

type t2gen struct {
	k    *Case
	g    *T2Glyph
	x, y int64
	frac bool
	wide bool
	lim  int64
	hint int
	mask bool // hint masks may be used
	sts  []*stencil
	fd   int
	used map[int]bool // FDs the stencils used belong to
}

// stencil is a subroutine of whole path operators, used by several glyphs.
type stencil struct {
	call   t2tok
	fd     int // -1: any
	path   []Seg
	dx, dy int64
}

// stencil inserts a call to a shared subroutine if its drawing stays inside the design space.
func (t *t2gen) stencil() bool {
	var can []*stencil
	for _, s := range t.sts {
		if s.fd < 0 || s.fd == t.fd {
			can = append(can, s)
		}
	}
	if len(can) == 0 {
		return false
	}
	s := can[t.k.U(len(can))]
	x0, y0 := t.pt()
	lim := fx(t.lim)
	for _, g := range s.path {
		for j := 0; j < g.n(); j += 2 {
			if x, y := x0+g.P[j], y0+g.P[j+1]; x < -lim || lim < x || y < -lim || lim < y {
				return false
			}
		}
	}
	t.g.toks = append(t.g.toks, s.call)
	t.g.Path = append(t.g.Path, transformSegs(s.path, x0, y0, 1)...)
	t.x += s.dx
	t.y += s.dy
	t.g.ops[-3] = true
	if 0 <= s.fd {
		t.used[s.fd] = true
	}
	return true
}

func (k *Case) genStencils(m *CFFModel) []*stencil {
	var sts []*stencil
	for i := k.I(0, 5); 0 < i; i-- {
		t := &t2gen{k: k, g: &T2Glyph{ops: map[int]bool{}}, lim: 2000 * one16, sts: sts, used: map[int]bool{}, fd: k.U(len(m.Priv))}
		t.frac = k.P(20)
		for j := 1 + k.I(0, 2); 0 < j; j-- {
			if !k.P(30) || !t.stencil() {
				t.segment()
			}
		}
		s := &stencil{fd: -1, path: t.g.Path, dx: t.x, dy: t.y}
		sub := &t2subr{toks: t.g.toks, fd: t.fd}
		if k.B() {
			s.fd = t.fd
			p := m.Priv[t.fd]
			p.Locals = append(p.Locals, sub)
			p.HasL = true
			s.call = t2tok{call: 1, v: int64(len(p.Locals) - 1)}
		} else {
			if 0 < len(t.used) {
				s.fd = t.fd
			}
			m.Globals = append(m.Globals, sub)
			s.call = t2tok{call: 2, v: int64(len(m.Globals) - 1)}
		}
		sts = append(sts, s)
	}
	return sts
}

func (t *t2gen) num(v int64) { t.g.toks = append(t.g.toks, t2tok{isNum: true, v: v}) }
func (t *t2gen) op(op int) {
	t.g.toks = append(t.g.toks, t2tok{op: op})
	t.g.ops[op] = true
}

func (t *t2gen) delta(pos int64) int64 {
	k := t.k
	var d int64
	switch k.U(8) {
	case 0:
		d = int64(pick(k, 0, 107, -107, 108, -108, 1131, -1131, 1132, -1132, 1, -1, 255, 256))
	case 1:
		if t.wide {
			d = int64(k.U(65536) - 32768)
			break
		}
		fallthrough
	default:
		d = int64(k.U(600) - 300)
	}
	d *= one16
	if t.frac && k.P(40) {
		d += int64(pick(k, one16/2, one16/4, 1, k.U(one16), 3*one16/4))
	}
	// stay inside the design space and inside what an operand can hold
	if p := pos + d; p < -t.lim || t.lim < p {
		d = -d
	}
	if p := pos + d; p < -t.lim {
		d = -t.lim - pos
	} else if t.lim < p {
		d = t.lim - pos
	}
	if d < -32768*one16 {
		d = -32768 * one16
	} else if 32767*one16 < d {
		d = 32767 * one16
	}
	return d
}

func fx(v int64) float64 { return float64(v) / one16 }

func (t *t2gen) dx() int64 { d := t.delta(t.x); t.x += d; t.num(d); return d }
func (t *t2gen) dy() int64 { d := t.delta(t.y); t.y += d; t.num(d); return d }
func (t *t2gen) lineTo()   { t.g.Path = append(t.g.Path, Seg{'L', [6]float64{fx(t.x), fx(t.y)}}) }
func (t *t2gen) pt() (float64, float64) {
	return fx(t.x), fx(t.y)
}
func (t *t2gen) cube(a, b, c, d float64) {
	t.g.Path = append(t.g.Path, Seg{'C', [6]float64{a, b, c, d, fx(t.x), fx(t.y)}})
}

func (t *t2gen) rcurve() {
	t.dx()
	t.dy()
	a, b := t.pt()
	t.dx()
	t.dy()
	c, d := t.pt()
	t.dx()
	t.dy()
	t.cube(a, b, c, d)
}

// alternating draws one curve of hvcurveto/vhcurveto.
func (t *t2gen) alternating(horizontal, last bool) {
	if horizontal {
		t.dx()
	} else {
		t.dy()
	}
	a, b := t.pt()
	t.dx()
	t.dy()
	c, d := t.pt()
	if horizontal {
		t.dy()
		if last {
			t.dx()
		}
	} else {
		t.dx()
		if last {
			t.dy()
		}
	}
	t.cube(a, b, c, d)
}

func (t *t2gen) segment() {
	k := t.k
	n := 1 + k.I(0, 3)
	full := k.P(4) // as many operands as the stack holds
	switch k.U(14) {
	case 0:
		if full {
			n = 23 + k.U(2)
		}
		for i := 0; i < n; i++ {
			t.dx()
			t.dy()
			t.lineTo()
		}
		t.op(5)
	case 1, 2:
		h := k.B()
		op := 6
		if !h {
			op = 7
		}
		if full {
			n = 46 + k.U(3)
		}
		for i := 0; i < n; i++ {
			if h {
				t.dx()
			} else {
				t.dy()
			}
			h = !h
			t.lineTo()
		}
		t.op(op)
	case 3:
		if full {
			n = 8
		}
		for i := 0; i < n; i++ {
			t.rcurve()
		}
		t.op(8)
	case 4: // rcurveline
		if full {
			n = 7
		}
		for i := 0; i < n; i++ {
			t.rcurve()
		}
		t.dx()
		t.dy()
		t.lineTo()
		t.op(24)
	case 5: // rlinecurve
		if full {
			n = 20 + k.U(2)
		}
		for i := 0; i < n; i++ {
			t.dx()
			t.dy()
			t.lineTo()
		}
		t.rcurve()
		t.op(25)
	case 6, 7: // hhcurveto, vvcurveto
		h := k.B()
		extra := k.B()
		if full && extra {
			n = 11
		} else if full {
			n = 12
		}
		for i := 0; i < n; i++ {
			if i == 0 && extra {
				if h {
					t.dy()
				} else {
					t.dx()
				}
			}
			if h {
				t.dx()
			} else {
				t.dy()
			}
			a, b := t.pt()
			t.dx()
			t.dy()
			c, d := t.pt()
			if h {
				t.dx()
			} else {
				t.dy()
			}
			t.cube(a, b, c, d)
		}
		if h {
			t.op(27)
		} else {
			t.op(26)
		}
	case 8, 9: // hvcurveto, vhcurveto
		h := k.B()
		start := h
		last := k.B()
		if full && last {
			n = 11
		} else if full {
			n = 12
		}
		for i := 0; i < n; i++ {
			t.alternating(h, last && i == n-1)
			h = !h
		}
		if start {
			t.op(31)
		} else {
			t.op(30)
		}
	case 10: // flex
		t.rcurve()
		t.rcurve()
		t.num(int64(k.U(100)) * one16)
		t.op(256 + 35)
	case 11: // hflex
		y0 := t.y
		t.dx()
		a, b := t.pt()
		t.dx()
		t.dy()
		c, d := t.pt()
		t.dx()
		t.cube(a, b, c, d)
		t.dx()
		a, b = t.pt()
		t.dx()
		t.y = y0
		c, d = t.pt()
		t.dx()
		t.cube(a, b, c, d)
		t.op(256 + 34)
	case 12: // hflex1
		y0 := t.y
		t.dx()
		t.dy()
		a, b := t.pt()
		t.dx()
		t.dy()
		c, d := t.pt()
		t.dx()
		t.cube(a, b, c, d)
		t.dx()
		a, b = t.pt()
		t.dx()
		t.dy()
		c, d = t.pt()
		t.dx()
		t.y = y0
		t.cube(a, b, c, d)
		t.op(256 + 36)
	case 13: // flex1
		x0, y0 := t.x, t.y
		t.rcurve()
		t.dx()
		t.dy()
		a, b := t.pt()
		t.dx()
		t.dy()
		c, d := t.pt()
		ax, ay := t.x-x0, t.y-y0
		if ax < 0 {
			ax = -ax
		}
		if ay < 0 {
			ay = -ay
		}
		if ay < ax {
			t.dx()
			t.y = y0
		} else {
			t.dy()
			t.x = x0
		}
		t.cube(a, b, c, d)
		t.op(256 + 37)
	}
}

func (t *t2gen) stems(n int) {
	for i := 0; i < n; i++ {
		t.num(int64(t.k.U(400)-100) * one16)
		t.num(int64(pick(t.k, 20, 50, -20, -21, 80, 1)) * one16)
	}
	t.hint += n
}

func (t *t2gen) maskOp(op int) {
	t.g.toks = append(t.g.toks, t2tok{op: op, mask: t.k.blob((t.hint + 7) / 8)})
	t.g.ops[op] = true
}

func (k *Case) genCharstring(o FontOpt, small bool, sts []*stencil, fd int, bulk func(*t2gen)) *T2Glyph {
	t := &t2gen{k: k, g: &T2Glyph{ops: map[int]bool{}}, lim: 30000 * one16, sts: sts, fd: fd, used: map[int]bool{}}
	t.frac = k.P(25)
	t.wide = o.Wide && k.P(40)
	width := k.P(60)
	putWidth := func() {
		if width {
			v := int64(k.U(1200)-600) * one16
			t.num(v)
			width = false
		}
	}
	hints := k.U(6) // 0,1 none, 2 plain stems, 3 with masks, 4 implied vstem before mask, 5 counter masks
	if small && k.P(70) {
		hints = 0
	}
	many := func() int {
		if k.P(4) {
			return 8 + k.U(15)
		}
		return 1 + k.I(0, 3)
	}
	switch hints {
	case 2:
		putWidth()
		t.stems(many())
		t.op(1)
		if k.B() {
			t.stems(many())
			t.op(3)
		}
	case 3, 4, 5:
		t.mask = true
		putWidth()
		vertical := hints == 4
		if k.P(5) { // many stems, up to the limit of 96
			total := 96 - k.U(2)*k.U(30)
			for t.hint < total {
				n := min(total-t.hint, 23+k.U(2)*min(t.hint, 1))
				t.stems(n)
				if t.hint == total && vertical {
					t.g.ops[-1] = true
				} else if 2*t.hint <= total {
					t.op(18)
				} else {
					t.op(23)
				}
			}
		} else {
			if !vertical || k.B() {
				t.stems(many())
				t.op(18)
			}
			if !vertical && k.B() {
				t.stems(many())
				t.op(23)
			}
			if vertical {
				t.stems(many())
				t.g.ops[-1] = true // stems implied by the following mask
			}
		}
		if hints == 5 || vertical && k.B() {
			if vertical {
				t.g.ops[-2] = true // stems implied by a counter mask
			}
			t.maskOp(20)
			if k.B() {
				t.maskOp(20)
			}
			if k.B() {
				t.maskOp(19)
			}
		} else {
			t.maskOp(19)
		}
	}
	nc := 1 + k.I(0, 2)
	if k.P(12) && bulk == nil {
		nc = 0
	}
	for c := 0; c < nc; c++ {
		if c == 0 {
			putWidth()
		}
		switch k.U(3) {
		case 0:
			t.dx()
			t.dy()
			t.op(21)
		case 1:
			t.dx()
			t.op(22)
		case 2:
			t.dy()
			t.op(4)
		}
		t.g.Path = append(t.g.Path, Seg{'M', [6]float64{fx(t.x), fx(t.y)}})
		ns := 1 + k.I(0, 4)
		if small {
			ns = 1 + k.U(2)
		}
		if k.P(3) {
			ns = 0
		}
		for i := 0; i < ns; i++ {
			if t.mask && k.P(15) {
				t.maskOp(19)
			}
			if k.P(25) && t.stencil() {
				continue
			}
			t.segment()
		}
		t.g.Path = append(t.g.Path, Seg{Op: 'Z'})
	}
	if nc == 0 {
		putWidth()
	}
	if bulk != nil {
		bulk(t)
	}
	t.op(14)
	return t.g
}

// moveTo starts a contour somewhere near the middle.
func (t *t2gen) moveTo(r *rng) {
	x, y := int64(r.n(1000)-500)*one16, int64(r.n(1000)-500)*one16
	t.num(x - t.x)
	t.num(y - t.y)
	t.op(21)
	t.x, t.y = x, y
	t.g.Path = append(t.g.Path, Seg{'M', [6]float64{fx(x), fx(y)}})
}

// filler draws lines until the charstring is about size bytes long.
func filler(r *rng, size int) func(*t2gen) {
	return func(t *t2gen) {
		for n := 0; n < size; {
			t.moveTo(r)
			n += 8
			for i := 1 + r.n(6); 0 < i; i-- {
				for j := 1 + r.n(23); 0 < j; j-- {
					x, y := int64(r.n(2400)-1200)*one16, int64(r.n(2400)-1200)*one16
					t.num(x - t.x)
					t.num(y - t.y)
					t.x, t.y = x, y
					t.lineTo()
					n += 6
				}
				n++
				t.op(5)
			}
			t.g.Path = append(t.g.Path, Seg{Op: 'Z'})
		}
	}
}

// manyCalls draws lines with a subroutine each.
func (m *CFFModel) manyCalls(r *rng, n, kind, fd int) func(*t2gen) {
	return func(t *t2gen) {
		t.moveTo(r)
		for ; 0 < n; n-- {
			x, y := int64(r.n(1000)-500)*one16, int64(r.n(1000)-500)*one16
			s := &t2subr{fd: fd, toks: []t2tok{{isNum: true, v: x - t.x}, {isNum: true, v: y - t.y}, {op: 5}}}
			t.x, t.y = x, y
			t.lineTo()
			if kind == 1 {
				p := m.Priv[fd]
				p.Locals = append(p.Locals, s)
				p.HasL = true
				t.g.toks = append(t.g.toks, t2tok{call: 1, v: int64(len(p.Locals) - 1)})
			} else {
				m.Globals = append(m.Globals, s)
				t.g.toks = append(t.g.toks, t2tok{call: 2, v: int64(len(m.Globals) - 1)})
			}
		}
		t.g.Path = append(t.g.Path, Seg{Op: 'Z'})
	}
}

// factor moves ranges of tokens into subroutines. Runs shared between glyphs come from reusing a
// subroutine whose tokens occur again.
func (k *Case) factor(m *CFFModel, fd int, locals *[]*t2subr, gs []*Glyph) {
	add := func(kind int, s *t2subr) int {
		if kind == 1 {
			*locals = append(*locals, s)
			return len(*locals) - 1
		}
		m.Globals = append(m.Globals, s)
		return len(m.Globals) - 1
	}
	var split func(toks []t2tok, level int) []t2tok
	split = func(toks []t2tok, level int) []t2tok {
		for i := k.I(0, 2); 0 < i && 2 <= len(toks); i-- {
			a := k.U(len(toks))
			b := a + 1 + k.U(len(toks)-a)
			if k.P(20) { // run to the end, including endchar
				b = len(toks)
			}
			if a == 0 && b == len(toks) && 0 < level {
				continue
			}
			body := append([]t2tok{}, toks[a:b]...)
			final := endsFinal(body, *locals, m.Globals)
			if level < 4 && k.P(35) {
				body = split(body, level+1)
			}
			kind := 1 + k.U(2)
			if locals == nil {
				kind = 2
			}
			n := add(kind, &t2subr{toks: body, final: final, fd: fd})
			call := t2tok{call: kind, v: int64(n)}
			toks = append(append(append([]t2tok{}, toks[:a]...), call), toks[b:]...)
		}
		return toks
	}
	// full: the stack has no room for a subroutine number at a
	full := func(toks []t2tok, a int) bool {
		n := 0
		for n < 48 && n < a && toks[a-1-n].isNum {
			n++
		}
		return n == 48
	}
	deepest := func(toks []t2tok) []t2tok { // nested as deep as allowed
		a := k.U(len(toks))
		if full(toks, a) {
			return toks
		}
		b := a + 1 + k.U(len(toks)-a)
		body := append([]t2tok{}, toks[a:b]...)
		final := endsFinal(body, *locals, m.Globals)
		for i := 9 + k.U(2); 0 < i; i-- {
			kind := 1 + k.U(2)
			n := add(kind, &t2subr{toks: body, final: final, fd: fd})
			body = []t2tok{{call: kind, v: int64(n)}}
		}
		return append(append(append([]t2tok{}, toks[:a]...), body...), toks[b:]...)
	}
	for _, g := range gs {
		flat, room := true, true
		for i, t := range g.Ops.toks {
			flat = flat && t.call == 0
			room = room && !full(g.Ops.toks, i)
		}
		if locals != nil && flat && 0 < len(g.Ops.toks) && (k.P(3) || !room && k.P(30)) {
			g.Ops.toks = deepest(g.Ops.toks)
		} else if room && k.P(55) {
			g.Ops.toks = split(g.Ops.toks, 0)
		}
	}
}

// endsFinal reports whether a token run ends the glyph.
func endsFinal(toks []t2tok, locals, globals []*t2subr) bool {
	if len(toks) == 0 {
		return false
	}
	t := toks[len(toks)-1]
	switch t.call {
	case 1:
		return locals[t.v].final
	case 2:
		return globals[t.v].final
	}
	return !t.isNum && t.op == 14
}

func (k *Case) genReal() CFFNum {
	switch k.U(7) {
	case 2:
		return CFFNum{Real: fmt.Sprintf("%s%d%sE%d", pick(k, "", "-"), 1+k.U(9), pick(k, "", "", ".5", ".25", fmt.Sprintf(".%d", k.U(1000))), k.U(14)-8)}
	case 0:
		return CFFNum{Real: pick(k, "0.5", ".25", "-12.5", "0.001", "-0.75", "1E3", "2.5E-3", "-2.25", "0.000488281", "3.14159", "1.5E2", "-0", "00.5")}
	case 1:
		return CFFNum{Real: fmt.Sprintf("%d.%d", k.U(2000)-1000, k.U(1000))}
	}
	return k.genInt(2000)
}

func (k *Case) genInt(n int) CFFNum {
	switch k.U(4) {
	case 0:
		return CFFNum{I: pick(k, 0, 107, 108, -107, -108, 1131, 1132, -1131, -1132, 32767, -32768, 32768, -32769, 1, -1)}
	}
	return CFFNum{I: k.U(2*n) - n}
}

func (k *Case) genPrivate() *CFFPrivate {
	p := &CFFPrivate{}
	arr := func(op, n int) {
		if k.P(40) {
			d := DictOp{Op: op}
			for i := 2 * (1 + k.I(0, n/2-1)); 0 < i; i-- {
				d.Args = append(d.Args, k.genReal())
			}
			p.Ops = append(p.Ops, d)
		}
	}
	num := func(op, pct int, real bool) {
		if k.P(pct) {
			v := k.genInt(1000)
			if real {
				v = k.genReal()
			}
			p.Ops = append(p.Ops, DictOp{Op: op, Args: []CFFNum{v}})
		}
	}
	arr(6, 14)
	arr(7, 10)
	arr(8, 14)
	arr(9, 10)
	num(256+9, 25, true)
	num(256+10, 25, true)
	num(256+11, 25, true)
	num(10, 30, true)
	num(11, 30, true)
	arr(256+12, 12)
	arr(256+13, 12)
	if k.P(20) {
		p.Ops = append(p.Ops, DictOp{Op: 256 + 14, Args: []CFFNum{{I: 1}}})
	}
	if k.P(20) {
		p.Ops = append(p.Ops, DictOp{Op: 256 + 17, Args: []CFFNum{{I: 1}}})
	}
	num(256+18, 20, true)
	num(256+19, 15, false)
	num(20, 50, true)
	num(21, 50, true)
	return p
}

func (k *Case) genCFF(f *Font, n int, o FontOpt) {
	m := &CFFModel{Name: k.genGlyphName(20)}
	f.CFFM = m
	small := 40 < n
	str := func(op, pct int) {
		if k.P(pct) {
			s := k.genText()
			if k.P(30) {
				s = cffStd[k.U(len(cffStd))]
			}
			m.Top = append(m.Top, DictOp{Op: op, Str: s, IsS: true})
		}
	}
	m.CID = !o.NoCID && k.P(20)
	if m.CID {
		m.Top = append(m.Top, DictOp{Op: 256 + 30, Str: "Adobe"})
	}
	str(0, 30)
	str(1, 30)
	str(256+0, 20)
	str(2, 60)
	str(3, 60)
	str(4, 40)
	num := func(op, pct int, real bool) {
		if k.P(pct) {
			v := k.genInt(40000)
			if real {
				v = k.genReal()
			}
			m.Top = append(m.Top, DictOp{Op: op, Args: []CFFNum{v}})
		}
	}
	if k.P(20) {
		m.Top = append(m.Top, DictOp{Op: 256 + 1, Args: []CFFNum{{I: k.U(2)}}})
	}
	num(256+2, 30, true)
	num(256+3, 40, true)
	num(256+4, 40, true)
	if k.P(20) {
		m.Top = append(m.Top, DictOp{Op: 256 + 5, Args: []CFFNum{{I: pick(k, 0, 2)}}})
	}
	if k.P(20) {
		m.Top = append(m.Top, DictOp{Op: 256 + 6, Args: []CFFNum{{I: 2}}})
	}
	if k.P(25) {
		d := DictOp{Op: 256 + 7}
		for i := 0; i < 6; i++ {
			d.Args = append(d.Args, pick(k, CFFNum{Real: "0.001"}, CFFNum{I: 0}, CFFNum{Real: "0.000488281"}, CFFNum{Real: "4.8828125E-4"}, CFFNum{Real: "0.00048828125"}, k.genReal()))
		}
		m.Top = append(m.Top, d)
	}
	num(13, 20, false)
	if k.P(60) {
		d := DictOp{Op: 5}
		for i := 0; i < 4; i++ {
			d.Args = append(d.Args, k.genReal())
		}
		m.Top = append(m.Top, d)
	}
	num(256+8, 10, true)
	if k.P(10) {
		d := DictOp{Op: 14}
		l := 1 + k.I(0, 15)
		if k.P(30) {
			l = 16
		}
		big := k.P(40)
		for i := 0; i < l; i++ {
			v := k.genInt(70000)
			if big {
				v = CFFNum{I: 100000 + k.U(1<<24)}
			}
			d.Args = append(d.Args, v)
		}
		m.Top = append(m.Top, d)
	}
	str(256+21, 15)
	str(256+22, 10)
	if k.P(10) {
		d := DictOp{Op: 256 + 23}
		for i := 1 + k.I(0, 10); 0 < i; i-- {
			d.Args = append(d.Args, k.genInt(40000))
		}
		m.Top = append(m.Top, d)
	}
	m.Unused = k.I(0, 2)
	nfd := 1
	if m.CID {
		nfd = 1 + k.U(3)
		for _, op := range []int{256 + 31, 256 + 32, 256 + 33, 256 + 34, 256 + 35} {
			num(op, 20, false)
		}
	}
	for i := 0; i < nfd; i++ {
		m.Priv = append(m.Priv, k.genPrivate())
	}
	cur := 0
	for i := 0; i < n; i++ {
		if k.P(30) {
			cur = k.U(nfd)
		}
		m.FDSel = append(m.FDSel, cur)
	}
	m.ISOAdobe = !m.CID && n <= 229 && (k.P(12) || 228 <= n && k.P(60))
	m.Subrs = k.P(70) && !o.NoSubrs
	var sts []*stencil
	if m.Subrs {
		sts = k.genStencils(m)
	}
	bulk := make([]func(*t2gen), n)
	if k.P(4) { // more charstring data than 16 bits can address
		r := &rng{genU64.Draw(k.T, "bulk")}
		for i := 2 + k.U(3); 0 < i; i-- {
			bulk[k.U(n)] = filler(r, pick(k, 22000, 33000, 5000, 40000))
		}
	}
	if m.Subrs && k.P(5) { // many subroutines in use
		r := &rng{genU64.Draw(k.T, "many")}
		total, kind := pick(k, 1240, 1241, 1239, 1300, 2600, 1500), 1+k.U(2)
		if o.Huge && k.P(20) {
			total = pick(k, 33900, 33899, 33901, 34200)
		}
		first := k.U(n)
		for left, j := total, 0; j < n && 0 < left; j++ {
			i := (first + j) % n
			c := min(left, 12000, max(1+k.U(1500), total/n+1))
			if bulk[i] == nil {
				bulk[i] = m.manyCalls(r, c, kind, m.FDSel[i])
				left -= c
			}
		}
	}
	for i := 0; i < n; i++ {
		f.Glyphs = append(f.Glyphs, &Glyph{Ops: k.genCharstring(o, small, sts, m.FDSel[i], bulk[i])})
	}
	if m.Subrs {
		for i, p := range m.Priv {
			var gs []*Glyph
			for j, g := range f.Glyphs {
				if m.FDSel[j] == i {
					gs = append(gs, g)
				}
			}
			k.factor(m, i, &p.Locals, gs)
			p.HasL = p.HasL || 0 < len(p.Locals) || k.P(20)
		}
		// sizes that make the three biases occur
		size := func() int {
			if !k.P(12) {
				return 0
			}
			return pick(k, 1239, 1240, 1241, 2000, 33899, 33900)
		}
		m.NGlobal = size()
		m.NLocal = size()
	}
}

// ---- encoding ----

func encT2Num(r *rng, w *W, v int64) {
	if v%one16 != 0 {
		w.u8(255)
		w.u32(uint32(int32(v)))
		return
	}
	i := int(v / one16)
	switch c := r.n(12); {
	case c == 11:
		w.u8(255)
		w.u32(uint32(int32(v)))
	case c == 10:
		w.u8(28)
		w.u16(i)
	default:
		encT2Int(w, i)
	}
}

// encT2Int is the shortest encoding of an integer.
func encT2Int(w *W, i int) {
	switch {
	case -107 <= i && i <= 107:
		w.u8(i + 139)
	case 108 <= i && i <= 1131:
		w.u8((i-108)>>8 + 247)
		w.u8((i - 108) & 0xFF)
	case -1131 <= i && i <= -108:
		w.u8((-i-108)>>8 + 251)
		w.u8((-i - 108) & 0xFF)
	default:
		w.u8(28)
		w.u16(i)
	}
}

func t2bias(n int) int {
	if n < 1240 {
		return 107
	} else if n < 33900 {
		return 1131
	}
	return 32768
}

type t2env struct {
	locals, globals []*t2subr
	lb, gb          int
	longCalls       bool
}

func (e *t2env) enc(r *rng, toks []t2tok) []byte {
	w := &W{}
	for _, t := range toks {
		switch {
		case t.isNum:
			encT2Num(r, w, t.v)
		case t.call != 0:
			s, b, op := (*t2subr)(nil), 0, 10
			if t.call == 1 {
				s, b = e.locals[t.v], e.lb
			} else {
				s, b, op = e.globals[t.v], e.gb, 29
			}
			if e.longCalls && r.p(30) {
				w.u8(28)
				w.u16(s.idx - b)
			} else {
				encT2Int(w, s.idx-b)
			}
			w.u8(op)
		default:
			if 256 <= t.op {
				w.u8(12)
			}
			w.u8(t.op & 0xFF)
			w.bytes(t.mask)
		}
	}
	return w.b
}

// place gives subroutines their indices among fillers.
func place(r *rng, subrs []*t2subr, size int) int {
	n := max(size, len(subrs))
	if size == 0 && r.p(40) {
		n += r.n(6)
	}
	used := map[int]bool{}
	mode := r.n(3)
	next := 0
	for _, s := range subrs {
		i := next
		if mode != 0 && len(subrs) < n {
			i = r.n(n)
			if mode == 2 {
				i = n - 1 - r.n(min(n, 3+len(subrs)))
			}
		}
		for used[i] {
			i = (i + 1) % n
		}
		used[i] = true
		s.idx = i
		next = i + 1
		for next < n && used[next] {
			next++
		}
		if n <= next {
			next = 0
		}
	}
	return n
}

func encINDEX(r *rng, items [][]byte) []byte {
	w := &W{}
	w.u16(len(items))
	if len(items) == 0 {
		return w.b
	}
	total := 1
	for _, it := range items {
		total += len(it)
	}
	size := 1
	for size < 4 && 1<<(8*size) <= total {
		size++
	}
	if r.p(20) {
		size += r.n(5 - size)
	}
	w.u8(size)
	put := func(v int) {
		for i := size - 1; 0 <= i; i-- {
			w.u8(v >> (8 * i))
		}
	}
	off := 1
	put(off)
	for _, it := range items {
		off += len(it)
		put(off)
	}
	for _, it := range items {
		w.bytes(it)
	}
	return w.b
}

func encDictInt(w *W, i int) {
	switch {
	case -1131 <= i && i <= 1131:
		encT2Int(w, i)
	case -32768 <= i && i <= 32767:
		w.u8(28)
		w.u16(i)
	default:
		w.u8(29)
		w.u32(uint32(int32(i)))
	}
}

func encDictNum(r *rng, w *W, n CFFNum) {
	if n.Real == "" {
		if r.p(10) {
			w.u8(29)
			w.u32(uint32(int32(n.I)))
			return
		}
		encDictInt(w, n.I)
		return
	}
	var nib []int
	for i := 0; i < len(n.Real); i++ {
		switch c := n.Real[i]; {
		case '0' <= c && c <= '9':
			nib = append(nib, int(c-'0'))
		case c == '.':
			nib = append(nib, 10)
		case c == 'E' && i+1 < len(n.Real) && n.Real[i+1] == '-':
			nib = append(nib, 12)
			i++
		case c == 'E':
			nib = append(nib, 11)
		case c == '-':
			nib = append(nib, 14)
		}
	}
	nib = append(nib, 15)
	if len(nib)%2 == 1 {
		nib = append(nib, 15)
	}
	w.u8(30)
	for i := 0; i < len(nib); i += 2 {
		w.u8(nib[i]<<4 | nib[i+1])
	}
}

type cffEnc struct {
	m       *CFFModel
	f       *Font
	strings []string
	sids    map[string]int
	off     map[string]int
	fixed   bool
}

func (e *cffEnc) sid(s string) int {
	if i, ok := cffStdIndex[s]; ok {
		return i
	}
	if i, ok := e.sids[s]; ok {
		return i
	}
	e.strings = append(e.strings, s)
	e.sids[s] = 391 + len(e.strings) - 1
	return e.sids[s]
}

func (e *cffEnc) dict(r *rng, ops []DictOp) []byte {
	w := &W{}
	for _, d := range ops {
		if d.Op == 256+30 { // ROS
			encDictInt(w, e.sid("Adobe"))
			encDictInt(w, e.sid("Identity"))
			encDictInt(w, 0)
		} else if d.IsS {
			encDictInt(w, e.sid(d.Str))
		} else {
			for _, a := range d.Args {
				encDictNum(r, w, a)
			}
			for _, n := range d.Ref {
				if e.fixed {
					w.u8(29)
					w.u32(uint32(e.off[n]))
				} else {
					encDictInt(w, e.off[n])
				}
			}
		}
		if 256 <= d.Op {
			w.u8(12)
		}
		w.u8(d.Op & 0xFF)
	}
	return w.b
}

func (m *CFFModel) enc(k *Case, f *Font) []byte {
	seed := genU64.Draw(k.T, "cffenc")
	off := map[string]int{}
	fixed := seed%3 != 2
	for it := 0; it < 50; it++ {
		r := &rng{seed}
		b, next := m.encOnce(r, f, off, fixed)
		same := true
		for n, v := range next {
			if !fixed && v < off[n] {
				next[n] = off[n] // grow only; gaps are harmless? no: fall back to fixed sizes below
			}
			if off[n] != v {
				same = false
			}
		}
		if same {
			return b
		}
		if it == 40 {
			fixed = true
		}
		off = next
	}
	panic("CFF layout does not settle")
}

func (m *CFFModel) encOnce(r *rng, f *Font, off map[string]int, fixed bool) ([]byte, map[string]int) {
	e := &cffEnc{m: m, f: f, sids: map[string]int{}, off: off, fixed: fixed}
	next := map[string]int{}
	for i := 0; i < m.Unused; i++ {
		e.sid(fmt.Sprintf("unused string %d", i))
	}
	n := f.N()
	// charset
	cs := &W{}
	if !m.ISOAdobe {
		var sids []int
		for i := 1; i < n; i++ {
			if m.CID {
				sids = append(sids, i)
			} else {
				sids = append(sids, e.sid(f.Glyphs[i].Name))
			}
		}
		switch format := r.n(3); format {
		case 0:
			cs.u8(0)
			for _, s := range sids {
				cs.u16(s)
			}
		default:
			cs.u8(format)
			maxRun := 256
			if format == 2 {
				maxRun = 65536
			}
			for i := 0; i < len(sids); {
				j := 1
				for i+j < len(sids) && sids[i+j] == sids[i]+j && j < maxRun && !r.p(5) {
					j++
				}
				cs.u16(sids[i])
				if format == 1 {
					cs.u8(j - 1)
				} else {
					cs.u16(j - 1)
				}
				i += j
			}
		}
	}
	// subroutines
	gl := place(r, m.Globals, m.NGlobal)
	filler := []byte{11}
	subrs := func(env *t2env, ss []*t2subr, size int) [][]byte {
		out := make([][]byte, size)
		for i := range out {
			out[i] = filler
		}
		for _, s := range ss {
			b := env.enc(r, s.toks)
			if !s.final {
				b = append(b, 11)
			} else if r.p(20) {
				b = append(b, 11) // a return that is never reached
			}
			out[s.idx] = b
		}
		return out
	}
	longCalls := r.p(8)
	envs := make([]*t2env, len(m.Priv))
	var locals [][][]byte
	ll := make([]int, len(m.Priv))
	for i, p := range m.Priv {
		ll[i] = place(r, p.Locals, m.NLocal)
	}
	for i, p := range m.Priv {
		envs[i] = &t2env{p.Locals, m.Globals, t2bias(ll[i]), t2bias(gl), longCalls}
	}
	for i, p := range m.Priv {
		if p.HasL {
			locals = append(locals, subrs(envs[i], p.Locals, ll[i]))
		} else {
			locals = append(locals, nil)
		}
	}
	// a global subroutine that calls a local one serves one FD only, and is encoded for that one
	gsub := make([][]byte, gl)
	for i := range gsub {
		gsub[i] = filler
	}
	for _, s := range m.Globals {
		b := envs[s.fd].enc(r, s.toks)
		if !s.final {
			b = append(b, 11)
		}
		gsub[s.idx] = b
	}
	if !m.Subrs {
		gsub = nil
	}
	var chars [][]byte
	for i, g := range f.Glyphs {
		b := envs[m.FDSel[i]].enc(r, g.Ops.toks)
		g.charstring = b
		chars = append(chars, b)
	}

	// Top DICT
	top := append([]DictOp{}, m.Top...)
	var refs []DictOp
	if !m.ISOAdobe {
		refs = append(refs, DictOp{Op: 15, Ref: []string{"charset"}})
	} else if r.p(30) {
		refs = append(refs, DictOp{Op: 15, Args: []CFFNum{{I: 0}}})
	}
	refs = append(refs, DictOp{Op: 17, Ref: []string{"chars"}})
	if m.CID {
		refs = append(refs, DictOp{Op: 256 + 36, Ref: []string{"fdarray"}}, DictOp{Op: 256 + 37, Ref: []string{"fdselect"}})
	} else {
		refs = append(refs, DictOp{Op: 18, Ref: []string{"privsize0", "priv0"}})
	}
	if r.p(30) {
		refs = append(refs, DictOp{Op: 16, Args: []CFFNum{{I: 0}}})
	}
	first := 0
	if m.CID {
		first = 1
	}
	if r.p(50) {
		top = append(top, refs...)
	} else {
		top = append(append(append([]DictOp{}, top[:first]...), refs...), top[first:]...)
	}
	topB := e.dict(r, top)
	var fdB [][]byte
	if m.CID {
		for i := range m.Priv {
			ops := []DictOp{{Op: 18, Ref: []string{fmt.Sprintf("privsize%d", i), fmt.Sprintf("priv%d", i)}}}
			if r.p(40) {
				ops = append([]DictOp{{Op: 256 + 38, Str: fmt.Sprintf("FD-%d", i), IsS: true}}, ops...)
			}
			if r.p(30) {
				m := []CFFNum{{Real: "0.001"}, {I: 0}, {I: 0}, {Real: "0.001"}, {I: 0}, {I: 0}}
				ops = append([]DictOp{{Op: 256 + 7, Args: m}}, ops...)
			}
			fdB = append(fdB, e.dict(r, ops))
		}
	}
	privB := make([][]byte, len(m.Priv))
	for i, p := range m.Priv {
		ops := append([]DictOp{}, p.Ops...)
		if p.HasL {
			ref := DictOp{Op: 19, Ref: []string{fmt.Sprintf("local%d", i)}}
			if r.p(50) {
				ops = append(ops, ref)
			} else {
				ops = append([]DictOp{ref}, ops...)
			}
		}
		privB[i] = e.dict(r, ops)
		next[fmt.Sprintf("privsize%d", i)] = len(privB[i])
	}
	var strs [][]byte
	for _, s := range e.strings {
		strs = append(strs, []byte(s))
	}
	w := &W{}
	w.u8(1)
	w.u8(0)
	w.u8(4)
	w.u8(1 + r.n(4))
	w.bytes(encINDEX(r, [][]byte{[]byte(m.Name)}))
	w.bytes(encINDEX(r, [][]byte{topB}))
	w.bytes(encINDEX(r, strs))
	w.bytes(encINDEX(r, gsub))
	// the rest in any order, private DICTs before their local subroutines
	parts := []string{"chars"}
	if !m.ISOAdobe {
		parts = append(parts, "charset")
	}
	if m.CID {
		parts = append(parts, "fdarray", "fdselect")
	}
	for i := range m.Priv {
		parts = append(parts, fmt.Sprintf("priv%d", i))
	}
	for i := len(parts) - 1; 0 < i; i-- {
		j := r.n(i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	var late []int
	putLocal := func(i int) {
		next[fmt.Sprintf("local%d", i)] = len(w.b) - next[fmt.Sprintf("priv%d", i)]
		w.bytes(encINDEX(r, locals[i]))
	}
	for _, p := range parts {
		next[p] = len(w.b)
		switch p {
		case "chars":
			w.bytes(encINDEX(r, chars))
		case "charset":
			w.bytes(cs.b)
		case "fdarray":
			w.bytes(encINDEX(r, fdB))
		case "fdselect":
			if r.p(50) {
				w.u8(0)
				for _, fd := range m.FDSel {
					w.u8(fd)
				}
				break
			}
			w.u8(3)
			rr := &W{}
			nr := 0
			for i, fd := range m.FDSel {
				if i == 0 || fd != m.FDSel[i-1] {
					rr.u16(i)
					rr.u8(fd)
					nr++
				}
			}
			w.u16(nr)
			w.bytes(rr.b)
			w.u16(n)
		default:
			i, _ := strconv.Atoi(p[4:])
			w.bytes(privB[i])
			if m.Priv[i].HasL {
				if r.p(50) {
					putLocal(i)
				} else {
					late = append(late, i)
				}
			}
		}
	}
	for _, i := range late {
		putLocal(i)
	}
	return w.b, next
}
