package harness

// P40: the merge, css and info commands.

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"testing"

	"github.com/tdewolff/font"
)

var infoRe = regexp.MustCompile(`(?s)^ +(\d+)  (.{1,4})  checksum=0x([0-9A-F]{8})  offset= *(\d+)  length= *(\d+)$`)

func TestP40(t *testing.T) {
	run(t, "P40", "two fonts with drawn glyphs are merged, a rule is written, a directory of several tables is listed, or a bad use is refused; distinct by options and files", func(c *Ctx) {
		c.check("merge", c.n(300, 5000), func(k *Case) {
			o := editOpt(k)
			o.MaxN, o.BigN, o.HugeN = 8, k.P(5), 0
			f, f2 := k.genPair(o)
			fonts := []*Font{f, f2}
			if k.P(12) {
				fonts = fonts[:1]
			} else if k.P(35) {
				o.NoSubrs = true
				o.Flavour = 1
				if f.CFF {
					o.Flavour = 2
				}
				fonts = append(fonts, k.genFont(o))
			}
			re := 1 < len(fonts) && k.P(30)
			if !k.P(20) {
				// a rune belongs to the first font that has it
				used := map[rune]bool{}
				for _, x := range fonts {
					sub := &Sub{Platform: 3, Encoding: 10, Format: 12, Map: map[rune]int{}}
					rm, _ := x.runeMap()
					for _, r := range sortedRunes(rm) {
						if rm[r] != 0 && !used[r] && r < 0x110000 {
							used[r] = true
							sub.Map[r] = rm[r]
						}
					}
					x.Subs = []*Sub{sub}
				}
			}
			d := k.cliDir()
			defer d.remove()
			var inputs []string
			var sin []byte
			var key []byte
			for i, x := range fonts {
				in, kind, _ := k.cliInput(x, nil)
				if kind == "woff2" {
					x.withoutZeroConts()
				}
				k.class("input " + kind)
				k.artifact(fmt.Sprintf("input%d", i), in)
				key = append(key, in...)
				if sin == nil && k.P(8) {
					sin = in
					inputs = append(inputs, "-")
				} else {
					// names in no order
					name := fmt.Sprintf("%s%d.%s", pick(k, "z", "font", "a b", "9"), i, pick(k, "ttf", "woff", "otf"))
					d.put(name, in)
					inputs = append(inputs, name)
				}
			}
			opt := []string{}
			if re {
				opt = append(opt, "--rearrange-cmap")
			}
			b64 := k.P(10)
			if b64 {
				opt = append(opt, "--encoding=base64")
			}
			quiet := k.P(20)
			if quiet {
				opt = append(opt, "-q")
			}
			typ := ""
			var outs []string
			switch k.U(6) {
			case 0:
				typ = pick(k, mimeOf(f.CFF), "font/woff2")
				opt = append(opt, "--type", typ)
				outs = []string{pick(k, "out", "merged.bin", "out.woff2", "-")}
			case 1:
				outs = []string{"one" + extOf(f.CFF), "two.woff2"}
			case 2:
				outs = []string{"out.woff2"}
			default:
				outs = []string{"out" + extOf(f.CFF)}
			}
			force := k.P(10) && outs[0] != "-"
			if force {
				d.put(outs[0], bytes.Repeat([]byte("old"), 5000))
				opt = append(opt, "--force")
			}
			for _, out := range outs {
				opt = append(opt, "-o", out)
			}
			args := []string{"merge"}
			if k.B() {
				args = append(append(args, opt...), inputs...)
			} else {
				args = append(append(args, inputs...), opt...)
			}
			m := modelOf(f)
			conflict := false
			drawn := f.drawn()
			for i, x := range fonts[1:] {
				cf := false
				m, cf = m.merge(modelOf(x), re, i+1)
				conflict = conflict || cf
				drawn += x.drawn()
			}
			what := fmt.Sprintf("fontcmd %q", args)
			if conflict {
				r := k.tool(d, sin, args...)
				if r.code == 0 {
					k.failf("%s succeeds although two fonts map a rune", what)
				}
				k.sameFiles(d, what)
				k.class("conflict")
				return
			}
			r := k.toolOK(d, sin, args...)
			var written []string
			for _, o := range outs {
				if o != "-" {
					written = append(written, o)
				}
			}
			got := k.sameFiles(d, what, written...)
			for _, o := range outs {
				mime := typ
				if mime == "" {
					mime = mimeOf(f.CFF)
					if filepath.Ext(o) == ".woff2" {
						mime = "font/woff2"
					}
				}
				b := got[o]
				if o == "-" {
					b = r.out
				} else if !quiet && !strings.Contains(string(r.out), o+":") {
					k.failf("%s: no summary of %q in %q", what, o, r.out)
				}
				s := k.cliFont(b, mime, b64, m, what)
				k.checkEdited(s, m, what, partAll)
				if re {
					k.checkRearranged(s, m, what)
				}
			}
			if quiet && outs[0] != "-" && len(r.out) != 0 {
				k.failf("%s: -q prints %q", what, r.out)
			}
			k.class("%d inputs", len(fonts))
			k.classIf(re, "rearranged")
			k.classIf(outs[0] == "-", "standard output")
			if 1 < len(fonts) && 1 < drawn {
				k.nontrivial(key, func() string { return fmt.Sprintf("fontcmd %q: %s", args, m.hist) })
			}
		})

		c.check("css", c.n(250, 4000), func(k *Case) {
			o := FontOpt{Edit: true, PlainMap: true, NoCID: true, BigN: k.P(5)}
			f := k.genFont(o)
			in, kind, index := k.cliInput(f, func() *Font { return k.genFont(FontOpt{MaxN: 3}) })
			k.artifact("input", in)
			m := modelOf(f)
			d := k.cliDir()
			defer d.remove()
			var sin []byte
			input := "in.font"
			if k.P(10) {
				input, sin = "-", in
			} else {
				d.put(input, in)
			}
			args := []string{"css"}
			sel := ".%n"
			if k.P(50) {
				sel = pick(k, ".%n", "#%i", ".icon-%u", ".a%%%i:before", ".%n-%u-%i", "p", ".%u::after,.%n")
				args = append(args, "--selector="+sel)
			}
			if index != 0 {
				args = append(args, "-i", fmt.Sprint(index))
			}
			quiet := k.P(30)
			if quiet {
				args = append(args, "-q")
			}
			want := ""
			keep := false
			switch k.U(6) {
			case 0: // appended
				want = "/* old */\n"
				d.put("o.css", []byte(want))
				args = append(args, pick(k, "-a", "--append"))
			case 1:
				args = append(args, "-a")
			case 2: // overwritten
				d.put("o.css", bytes.Repeat([]byte("x"), 3000))
				args = append(args, "-f")
			case 3: // not overwritten
				if input != "-" {
					d.put("o.css", []byte("old"))
					sin = []byte(pick(k, "n\n", "", "no\n"))
					keep = true
				}
			}
			args = append(args, input, "-o", "o.css")
			what := fmt.Sprintf("fontcmd %q", args)
			r := k.tool(d, sin, args...)
			if keep {
				k.sameFiles(d, what)
				return
			}
			if r.code != 0 {
				k.failf("%s fails: %s", what, r.err)
			}
			got := string(k.sameFiles(d, what, "o.css")["o.css"])
			if !strings.HasPrefix(got, want) {
				k.failf("%s: what the file had is gone: %.200q", what, got)
			}
			got = got[len(want):]
			back := backRunes(m)
			rules := 0
			for i := 1; i < f.N(); i++ {
				var cands []string
				for _, r := range back[i] {
					for _, s := range fmtNames(sel, i, f.wantName(i), []rune{r}) {
						if s != "" {
							cands = append(cands, fmt.Sprintf("%s{content:\"\\%x\"}\n", s, r))
						}
					}
				}
				if len(cands) == 0 {
					continue
				}
				rules++
				n := 0
				for _, s := range cands {
					if strings.HasPrefix(got, s) {
						n = max(n, len(s))
					}
				}
				if n == 0 {
					k.failf("%s: glyph %d: the file goes on with %.200q, expected one of %.500q", what, i, got, cands)
				}
				got = got[n:]
			}
			if got != "" {
				k.failf("%s: more rules than expected: %.200q", what, got)
			}
			if quiet && 0 < len(r.out)+len(r.err) {
				k.failf("%s prints %q %q", what, r.out, r.err)
			}
			k.class("input " + kind)
			if 0 < rules {
				k.nontrivial([]byte(fmt.Sprint(args, len(in), in[len(in)/2:])), func() string { return fmt.Sprintf("fontcmd %q: %d rules for %v", args, rules, f) })
			}
		})

		c.check("info", c.n(250, 4000), func(k *Case) {
			f := k.genFont(FontOpt{})
			in, kind, _ := k.cliInput(f, nil)
			k.artifact("input", in)
			d := k.cliDir()
			defer d.remove()
			d.put("in.font", in)
			b := in
			if kind == "woff" || kind == "woff2" || kind == "eot" {
				k.guard("decoding", func() {
					var err error
					if b, err = font.ToSFNT(in); err != nil {
						k.failf("%s file is rejected: %v", kind, err)
					}
				})
			}
			r := k.toolOK(d, nil, "info", "in.font")
			k.sameFiles(d, "fontcmd info")
			lines := strings.Split(string(r.out), "\n")
			flav := "TrueType"
			if f.CFF {
				flav = "CFF"
			}
			if v := fmt.Sprintf("sfntVersion: 0x%08X (%s)", f.version(), flav); !has(lines, v) {
				k.failf("fontcmd info does not print %q:\n%s", v, r.out)
			}
			at := 0
			for ; at < len(lines) && lines[at] != "Table directory:"; at++ {
			}
			lines = lines[min(len(lines), at+1):]
			n := be16(b, 4)
			rows := 0
			for _, l := range lines {
				if l == "" {
					continue
				}
				sm := infoRe.FindStringSubmatch(l)
				if sm == nil || n <= rows {
					k.failf("fontcmd info prints %q for entry %d of %d", l, rows, n)
				}
				p := 12 + 16*rows
				got := strings.Join(sm[1:], "|")
				want := fmt.Sprintf("%d|%s|%08X|%d|%d", rows, b[p:p+4], be32(b, p+4), be32(b, p+8), be32(b, p+12))
				if got != want {
					k.failf("fontcmd info prints %q, which is %q; the file has %q", l, got, want)
				}
				rows++
			}
			if rows != n {
				k.failf("fontcmd info lists %d of %d tables:\n%s", rows, n, r.out)
			}
			k.class("input " + kind)
			k.nontrivial(b[:12+16*n], func() string { return fmt.Sprintf("%s: %d tables", kind, n) })
		})

		c.check("errors", c.n(250, 4000), func(k *Case) {
			fo := FontOpt{Edit: true, PlainMap: true, MaxN: 4, NoCID: true, NoSubrs: true}
			f := k.genFont(fo)
			in, kind, _ := k.cliInput(f, nil)
			d := k.cliDir()
			defer d.remove()
			d.put("good.font", in)
			why := ""
			var args []string
			var sin []byte
			mayPass := false
			out := "out" + extOf(f.CFF)
			unusable := func() string {
				b := append([]byte{}, in...)
				name := "bad.font"
				switch k.U(6) {
				case 0:
					b = b[:0]
				case 1:
					b = b[:k.U(min(len(b), 28))]
				case 2:
					b = append([]byte("?"), b...)
				case 3:
					b = k.blob(k.U(300))
					b = append([]byte(pick(k, "\x00\x01\x00\x00", "OTTO", "wOFF", "wOF2", "true")), b...)
				case 4:
					name = pick(k, "nothere", "no/where", "dir")
					if name == "dir" {
						os.Mkdir(filepath.Join(d.dir, "dir"), 0o755)
						d.files["dir"] = nil
					}
					return name
				default:
					b = b[:k.U(len(b))]
					mayPass = kind != "sfnt"
				}
				d.put(name, b)
				k.artifact("bad", b)
				return name
			}
			switch k.U(11) {
			case 0, 1:
				why = "merging an unusable font"
				args = []string{"merge", "good.font", unusable(), "-o", out}
				if k.B() {
					args[1], args[2] = args[2], args[1]
				}
			case 2:
				why = "css of an unusable font"
				args = []string{"css", unusable(), "-o", out}
			case 3:
				why = "info of an unusable font"
				args = []string{"info", unusable()}
				mayPass = mayPass || 28 < len(d.files["bad.font"]) // the directory may be there
			case 4:
				why = "no output"
				args = []string{pick(k, "merge", "css"), "good.font"}
			case 5:
				why = "no input"
				args = [][]string{{"merge", "-o", out}, {"merge"}, {"info"}, {"css", "-o", out}}[k.U(4)]
			case 6:
				why = "bad encoding"
				args = []string{"merge", "good.font", "-e", "hex", "-o", out}
			case 7:
				why = "bad type"
				if k.B() {
					args = []string{"merge", "good.font", "-t", pick(k, "font/woff", mimeOf(!f.CFF), "x"), "-o", out}
				} else {
					args = []string{"merge", "good.font", "-o", pick(k, "out", "out.eot", "out.woff", "out"+extOf(!f.CFF), "-")}
				}
			case 8:
				why = "mixed outlines"
				fo.Flavour = 2
				if f.CFF {
					fo.Flavour = 1
				}
				fo.MinN = 2
				f2 := k.genFont(fo)
				for _, x := range []*Font{f2} {
					x.Subs = []*Sub{{Platform: 3, Encoding: 10, Format: 12, Map: map[rune]int{}}}
				}
				d.put("other.font", f2.bytes(k))
				args = []string{"merge", "good.font", "other.font", "-o", out}
			case 9:
				why = "output exists"
				d.put(out, []byte("old"))
				args = []string{"merge", "good.font", "-o", out}
				sin = []byte(pick(k, "", "n\n", "no\n", "?\n"))
			default:
				why = "unknown font of a collection"
				args = []string{"css", "good.font", "-i", pick(k, "1", "-1", "99999"), "-o", out}
			}
			r := k.tool(d, sin, args...)
			if r.code == 0 && !mayPass {
				k.failf("fontcmd %q is accepted (%s): %s %s", args, why, r.out, r.err)
			}
			if r.code != 0 {
				k.sameFiles(d, fmt.Sprintf("fontcmd %q (%s)", args, why))
				if len(r.err) == 0 {
					k.failf("fontcmd %q fails without a message", args)
				}
			}
			k.class(why)
			k.nontrivial([]byte(fmt.Sprint(args, len(in))), func() string { return fmt.Sprintf("%s: fontcmd %q", why, args) })
		})
	})
}
