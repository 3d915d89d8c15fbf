package harness

import "testing"

// TestSelf checks the harness against itself: what it generates, its own readers accept and read back.
func TestSelf(t *testing.T) {
	run(t, "SELF", "n/a", func(c *Ctx) {
		c.check("cff", c.n(2000, 20000), func(k *Case) {
			f := k.genFont(FontOpt{Flavour: 2, BigN: true, Wide: true})
			b := f.bytes(k)
			d, err := refDirectory(b)
			if err != nil {
				k.failf("directory: %v", err)
			}
			r, err := refParseCFF(d.tables()["CFF "])
			if err != nil {
				k.failf("CFF: %v", err)
			}
			for i, g := range f.Glyphs {
				p, err := r.path(i)
				if err != nil {
					k.failf("glyph %d: %v", i, err)
				}
				if err := samePath(p, g.Ops.Path, 0); err != nil {
					k.failf("glyph %d: %v", i, err)
				}
				if !f.CFFM.CID && r.names[i] != g.Name {
					k.failf("name %d: %q %q", i, r.names[i], g.Name)
				}
			}
		})
	})
}
