package harness

import (
	"fmt"
	"math"
	"testing"

	"github.com/tdewolff/font"
)

func (k *Case) genPlace() (x, y, f float64) {
	if k.P(40) {
		return 0, 0, 1
	}
	x = float64(k.U(20000)-10000) / float64(pick(k, 1, 7, 64))
	y = float64(k.U(20000)-10000) / float64(pick(k, 1, 3, 1000))
	f = pick(k, 1.0, 0.5, -1, 12.0/1000, 1/2048.0, 3.7, 100, -0.25)
	return
}

// wantPath is the outline the model defines and the rounding it may be subject to.
func (f *Font) wantPath(gid int) ([]Seg, float64) {
	if f.CFF {
		return f.Glyphs[gid].Ops.Path, 0
	}
	cs, bound := f.refPoints(gid)
	return ptsToPath(cs), bound
}

func (k *Case) checkOutline(s *font.SFNT, f *Font, gid int, x, y, sc float64) {
	k.Helper()
	want, bound := f.wantPath(gid)
	var got []Seg
	var err error
	k.guard("GlyphPath", func() { got, err = drawGlyph(s, gid, x, y, sc) })
	if err != nil {
		k.failf("glyph %d: GlyphPath error: %v", gid, err)
	}
	err = samePath(got, transformSegs(want, x, y, sc), pathTol(x, y, sc, bound))
	if err != nil && bound != 0 {
		// rounding may merge or separate points: the path must then be that of the rounded points,
		// each of which is as close to its place as rounding allows
		if c, e := s.Glyf.Contour(uint16(gid)); e == nil {
			cs, _ := f.refPoints(gid)
			n := 0
			ok := true
			for i, ct := range cs {
				for j := range ct {
					if ok = ok && n < len(c.XCoordinates); ok {
						rx, ry := float64(c.XCoordinates[n]), float64(c.YCoordinates[n])
						ok = math.Abs(rx-ct[j].x) <= bound && math.Abs(ry-ct[j].y) <= bound
						cs[i][j].x, cs[i][j].y = rx, ry
					}
					n++
				}
			}
			if ok && samePath(got, transformSegs(ptsToPath(cs), x, y, sc), pathTol(x, y, sc, 0)) == nil {
				err = nil
			}
		}
	}
	if err != nil {
		k.failf("glyph %d at (%v,%v) scale %v: %v", gid, x, y, sc, err)
	}
}

func TestP17(t *testing.T) {
	run(t, "P17", "the font has a glyph with an off-curve point or a composite glyph; distinct by font file", func(c *Ctx) {
		c.check("outline", c.n(1500, 20000), func(k *Case) {
			f := k.genFont(FontOpt{Flavour: 1, HugeN: 1, Wide: true, NoKern: true, NoVert: true, NoExtra: true})
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			x, y, sc := k.genPlace()
			inter := false
			for i, g := range f.Glyphs {
				k.checkOutline(s, f, i, x, y, sc)
				k.classIf(len(g.Comps) != 0, "composite")
				k.classIf(g.isEmpty(), "empty")
				for _, c := range g.Comps {
					inter = true
					k.class("component kind %d", c.Kind)
					k.classIf(len(f.Glyphs[c.GID].Comps) != 0, "nested")
				}
				for _, ct := range g.Contours {
					on := 0
					for _, p := range ct {
						if p.On {
							on++
						}
					}
					inter = inter || on < len(ct)
					k.classIf(on == 0, "contour without on-curve point")
					k.classIf(!ct[0].On && 0 < on, "contour starting off curve")
					k.classIf(len(ct) == 1, "one-point contour")
				}
				// the contour points behind the path
				if got, err := s.Glyf.Contour(uint16(i)); err != nil {
					k.failf("Contour(%d): %v", i, err)
				} else {
					cs, bound := f.refPoints(i)
					n := 0
					for ci, ct := range cs {
						for _, p := range ct {
							if len(got.XCoordinates) <= n || len(got.YCoordinates) <= n || len(got.OnCurve) <= n {
								k.failf("Contour(%d) has %d points, expected more", i, len(got.XCoordinates))
							}
							if bound+1e-9 < math.Abs(float64(got.XCoordinates[n])-p.x) || bound+1e-9 < math.Abs(float64(got.YCoordinates[n])-p.y) || got.OnCurve[n] != p.on {
								k.failf("Contour(%d) point %d is (%d,%d,%v), expected (%v,%v,%v)", i, n, got.XCoordinates[n], got.YCoordinates[n], got.OnCurve[n], p.x, p.y, p.on)
							}
							n++
						}
						if len(got.EndPoints) <= ci || int(got.EndPoints[ci]) != n-1 {
							k.failf("Contour(%d) end points %v, contour %d ends at %d", i, got.EndPoints, ci, n-1)
						}
					}
					if len(got.XCoordinates) != n || len(got.EndPoints) != len(cs) {
						k.failf("Contour(%d) has %d points in %d contours, expected %d in %d", i, len(got.XCoordinates), len(got.EndPoints), n, len(cs))
					}
					if string(got.Instructions) != string(g.Instr) {
						k.failf("Contour(%d) instructions %x, expected %x", i, got.Instructions, g.Instr)
					}
				}
			}
			if inter {
				k.nontrivial(b, f.String)
			}
		})
		c.check("deps", c.n(400, 6000), func(k *Case) {
			f := k.genFont(FontOpt{Flavour: 1, NoKern: true, NoVert: true, NoExtra: true})
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			for i, g := range f.Glyphs {
				var want func(i int) map[int]bool
				want = func(i int) map[int]bool {
					m := map[int]bool{i: true}
					for _, c := range f.Glyphs[i].Comps {
						for d := range want(c.GID) {
							m[d] = true
						}
					}
					return m
				}
				w := want(i)
				got, err := s.Glyf.Dependencies(uint16(i))
				if err != nil {
					k.failf("Dependencies(%d): %v", i, err)
				}
				m := map[int]bool{}
				for _, d := range got {
					m[int(d)] = true
				}
				if fmt.Sprint(m) != fmt.Sprint(w) {
					k.failf("Dependencies(%d) = %v, expected %v", i, got, w)
				}
				if s.Glyf.IsComposite(uint16(i)) != (0 < len(g.Comps)) {
					k.failf("IsComposite(%d) is wrong", i)
				}
				if 0 < len(g.Comps) {
					k.nontrivial(b, f.String)
				}
			}
		})
	})
}

func TestP18(t *testing.T) {
	run(t, "P18", "the font has a glyph with at least two different path operators; distinct by font file", func(c *Ctx) {
		c.check("outline", c.n(2000, 25000), func(k *Case) {
			f := k.genFont(FontOpt{Flavour: 2, HugeN: 1, Wide: true, NoKern: true, NoVert: true, NoExtra: true})
			b := f.bytes(k)
			k.artifact("font", b)
			s := k.mustParse(b, "font")
			x, y, sc := k.genPlace()
			inter := false
			for i, g := range f.Glyphs {
				k.checkOutline(s, f, i, x, y, sc)
				ops := 0
				for op := range g.Ops.ops {
					if op != 14 && op != 4 && op != 21 && op != 22 {
						ops++
					}
					k.class("op %d", op)
				}
				inter = inter || 2 <= ops
			}
			k.classIf(f.CFFM.CID, "CID")
			k.classIf(f.CFFM.Subrs, "subroutines")
			k.classIf(1240 <= f.CFFM.NGlobal, "global bias > 107")
			k.classIf(1240 <= f.CFFM.NLocal, "local bias > 107")
			if inter {
				k.nontrivial(b, f.String)
			}
		})
	})
}
