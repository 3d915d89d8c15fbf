package harness

// P39: the command line subsetter, run as a subprocess in a scratch directory.

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"testing"
	"time"
	"unicode"
	"unicode/utf8"

	"github.com/tdewolff/font"
)

// cliDir is a scratch directory of the tool, with the files the case put there.
type cliDir struct {
	dir   string
	files map[string][]byte
}

var asRoot = os.Getuid() == 0

func (k *Case) cliDir() *cliDir {
	dir, err := os.MkdirTemp(scanBase(), "cli")
	if err != nil {
		panic(err)
	}
	os.Chmod(dir, 0o755)
	if asRoot {
		os.Chown(dir, 65534, 65534)
	}
	return &cliDir{dir: dir, files: map[string][]byte{}}
}

func (d *cliDir) remove() { os.RemoveAll(d.dir) }

func (d *cliDir) put(name string, b []byte) {
	p := filepath.Join(d.dir, name)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic(err)
	}
	if asRoot {
		os.Chown(p, 65534, 65534)
	}
	d.files[name] = b
}

// list reads all files of the directory.
func (d *cliDir) list() map[string][]byte {
	m := map[string][]byte{}
	es, err := os.ReadDir(d.dir)
	if err != nil {
		panic(err)
	}
	for _, e := range es {
		if e.IsDir() {
			m[e.Name()] = nil
			continue
		}
		b, err := os.ReadFile(filepath.Join(d.dir, e.Name()))
		if err != nil {
			panic(err)
		}
		m[e.Name()] = b
	}
	return m
}

type cliRes struct {
	code     int
	out, err []byte
}

var crashRe = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: |goroutine \d+ \[|SIG[A-Z]+: |\[signal )`)

func fontcmd() string {
	if p := os.Getenv("VERIF_FONTCMD"); p != "" {
		return p
	}
	return "/tmp/fontcmd"
}

// tool runs the tool; a crash or a hang is a violation.
func (k *Case) tool(d *cliDir, stdin []byte, args ...string) *cliRes {
	k.Helper()
	k.note("fontcmd %q", args)
	ctx, cancel := context.WithTimeout(context.Background(), 100*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, fontcmd(), args...)
	cmd.Dir = d.dir
	cmd.Env = []string{"PATH=/usr/bin:/bin", "HOME=" + d.dir, "GOTRACEBACK=single", "TERM=dumb"}
	cmd.Stdin = bytes.NewReader(stdin)
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if asRoot {
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534, NoSetGroups: true}}
	}
	err := cmd.Run()
	r := &cliRes{0, so.Bytes(), se.Bytes()}
	if ctx.Err() != nil {
		if ut := cmd.ProcessState.UserTime(); ut < 30*time.Second {
			panic(fmt.Sprintf("fontcmd did not end in time, using %v", ut))
		}
		k.failf("fontcmd %q does not end", args)
	}
	if err != nil {
		ee, ok := err.(*exec.ExitError)
		if !ok {
			panic(err)
		}
		r.code = ee.ExitCode()
	}
	if crashRe.Match(r.err) || r.code < 0 {
		k.failf("fontcmd %q crashes (status %d):\n%.2000s", args, r.code, r.err)
	}
	return r
}

func (k *Case) toolOK(d *cliDir, stdin []byte, args ...string) *cliRes {
	k.Helper()
	r := k.tool(d, stdin, args...)
	if r.code != 0 {
		k.failf("fontcmd %q fails (status %d): %.600s", args, r.code, r.err)
	}
	return r
}

// sameFiles checks that the directory has exactly the files expected; a nil slice in extra is
// any file.
func (k *Case) sameFiles(d *cliDir, what string, extra ...string) map[string][]byte {
	k.Helper()
	got := d.list()
	more := map[string]bool{}
	for _, e := range extra {
		more[e] = true
		if _, ok := got[e]; !ok {
			k.failf("%s: %q was not written", what, e)
		}
	}
	for _, n := range sortedTags(got) {
		if more[n] {
			continue
		}
		want, ok := d.files[n]
		if !ok {
			k.failf("%s: %q was written", what, n)
		}
		if !bytes.Equal(want, got[n]) {
			k.failf("%s: %q was changed", what, n)
		}
	}
	for n := range d.files {
		if _, ok := got[n]; !ok {
			k.failf("%s: %q is gone", what, n)
		}
	}
	return got
}

// ---- selections ----

type selection struct {
	set   map[int]bool
	args  []string
	kinds map[string]bool
}

// option spells the elements of a list option.
func (k *Case) option(short, long string, els []string) []string {
	var args []string
	for 0 < len(els) {
		n := 1 + k.U(len(els))
		v := strings.Join(els[:n], ",")
		els = els[n:]
		if strings.HasPrefix(v, "-") || v == "" { // an option by its looks
			args = append(args, "--"+long+"="+v)
			continue
		}
		switch k.U(4) {
		case 0:
			args = append(args, "-"+short, v)
		case 1:
			args = append(args, "--"+long+"="+v)
		case 2:
			args = append(args, "--"+long, v)
		default:
			if strings.HasPrefix(v, "=") {
				args = append(args, "-"+short, v)
			} else {
				args = append(args, "-"+short+v)
			}
		}
	}
	return args
}

// escapeRune spells a character for -c; any is a spelling that may not be raw.
func (k *Case) spellRune(r rune, escape bool) string {
	if esc, ok := map[rune]string{'\a': `\a`, '\b': `\b`, '\t': `\t`, '\n': `\n`, '\v': `\v`, '\f': `\f`, '\r': `\r`, '"': `\"`, '\'': `\'`, ',': `\,`, '-': `\-`, '\\': `\\`}[r]; ok {
		if k.P(60) || r == ',' || r == '\\' {
			if (r == ',' || r == '\\') && k.P(30) {
				return fmt.Sprintf(`\x%02x`, r)
			}
			return esc
		}
		escape = escape || r == '-' || r < 0x20
	}
	if r < 0x20 || r == '-' || r == '[' || r == '{' || r == ']' || r == '}' || r == '=' || r == utf8.RuneError || !utf8.ValidRune(r) {
		escape = true
	}
	if !escape && k.P(85) {
		return string(r)
	}
	up := "x"
	if k.B() {
		up = "X"
	}
	if r < 0x100 && k.B() {
		return fmt.Sprintf(`\x%02`+up, r)
	} else if r < 0x10000 && k.P(80) {
		return fmt.Sprintf(`\u%04`+up, r)
	}
	return fmt.Sprintf(`\U%08`+up, r)
}

var wordRe = regexp.MustCompile(`^[A-Za-z0-9._]+$`)

func (k *Case) genSelection(f *Font, m *mFont) *selection {
	s := &selection{set: map[int]bool{0: true}, kinds: map[string]bool{}}
	n := f.N()
	runes := sortedRuneSet(m.runes)
	rune1 := func() rune {
		if 0 < len(runes) && !k.P(15) {
			r := runes[k.U(len(runes))]
			if k.P(10) {
				r += rune(k.I(-2, 2))
			}
			return max(r, 0)
		}
		switch k.U(4) {
		case 0:
			return rune(k.U(0x80))
		case 1:
			return pick(k, ',', '-', '\\', '"', '\'', '\t', '[', '{', ' ', '%', '\n', '\a', '\b', '\v', '\f', '\r')
		case 2:
			return rune(k.U(0x10000))
		default:
			return rune(k.U(0x110000))
		}
	}
	char := func(r rune) {
		for g := range m.runes[r] {
			s.set[g] = true
		}
	}
	span := func(lo, hi rune) {
		for r, gs := range m.runes {
			if lo <= r && r <= hi {
				for g := range gs {
					s.set[g] = true
				}
			}
		}
	}
	bounds := func() (lo, hi rune) {
		lo = rune1()
		hi = lo + rune(pick(k, 0, 1, 2, 5, 25, 60, 300))
		if 1 < len(runes) && k.B() {
			i := k.U(len(runes))
			lo = runes[i]
			hi = runes[min(len(runes)-1, i+k.U(5))]
			if 4000 < hi-lo {
				hi = lo + 4000
			}
		}
		return lo, min(hi, 0x10FFFF)
	}
	for round := pick(k, 1, 1, 2, 3); 0 < round; round-- {
		switch kind := k.U(5); kind {
		case 0: // glyph IDs
			var els []string
			for i := k.I(1, 4); 0 < i; i-- {
				if k.B() {
					g := k.U(n)
					s.set[g] = true
					els = append(els, fmt.Sprint(g))
				} else {
					a := k.U(n)
					b := a + k.U(n-a)
					els = append(els, fmt.Sprintf("%d-%d", a, b))
					for ; a <= b; a++ {
						s.set[a] = true
					}
				}
			}
			s.kinds["glyph"] = true
			s.args = append(s.args, k.option("g", "glyph", els)...)
		case 1: // characters
			var els []string
			for i := k.I(1, 3); 0 < i; i-- {
				el := ""
				if k.P(10) { // a bare hyphen at the start
					el = "-"
					char('-')
					if k.B() {
						r := rune1()
						if r != '-' { // "-" then "-x" would be a range
							// the hyphen is literal and may start no range here
							el += k.spellRune(r, false)
							char(r)
						}
					}
				}
				for j := k.I(1, 4); 0 < j; j-- {
					if k.P(60) {
						r := rune1()
						el += k.spellRune(r, false)
						char(r)
					} else {
						lo, hi := bounds()
						el += k.spellRune(lo, false) + "-" + k.spellRune(hi, false)
						span(lo, hi)
					}
				}
				if k.P(10) {
					r := rune1()
					el += k.spellRune(r, false) + "-" // a bare hyphen at the end
					char(r)
					char('-')
				}
				els = append(els, el)
			}
			s.kinds["char"] = true
			s.args = append(s.args, k.option("c", "char", els)...)
		case 2: // names
			if !f.CFF && f.PostV == 3 {
				continue
			}
			count := map[string]int{}
			for i := 0; i < n; i++ {
				count[f.wantName(i)]++
			}
			var els []string
			for i := k.I(1, 5); 0 < i; i-- {
				if g := k.U(n); !k.P(15) {
					if name := f.wantName(g); count[name] == 1 && wordRe.MatchString(name) {
						els = append(els, name)
						s.set[g] = true
					}
				} else if x := pick(k, "nosuchname", "Aunknown", ".null.1"); count[x] == 0 {
					els = append(els, x)
				}
			}
			if 0 < len(els) {
				s.kinds["name"] = true
				s.args = append(s.args, k.option("n", "name", els)...)
			}
		case 3: // code points
			var els []string
			hex := func(r rune) string { return fmt.Sprintf(pick(k, "%x", "%X", "%04X", "%06x"), r) }
			for i := k.I(1, 4); 0 < i; i-- {
				if k.B() {
					r := rune1()
					els = append(els, hex(r))
					char(r)
				} else {
					lo, hi := bounds()
					els = append(els, hex(lo)+"-"+hex(hi))
					span(lo, hi)
				}
			}
			s.kinds["unicode"] = true
			s.args = append(s.args, k.option("u", "unicode", els)...)
		default: // categories and scripts
			var els []string
			for i := k.I(1, 2); 0 < i; i-- {
				name := classNames[k.U(len(classNames))]
				if 0 < len(runes) && k.P(70) { // one that the font has
					r := runes[k.U(len(runes))]
					var in []string
					for _, c := range classNames {
						if unicode.Is(classes[c], r) {
							in = append(in, c)
						}
					}
					if 0 < len(in) {
						name = in[k.U(len(in))]
					}
				}
				els = append(els, name)
				for r, gs := range m.runes {
					if unicode.Is(classes[name], r) {
						for g := range gs {
							s.set[g] = true
						}
					}
				}
			}
			s.kinds["range"] = true
			s.args = append(s.args, k.option("r", "range", els)...)
		}
	}
	return s
}

var classes = map[string]*unicode.RangeTable{}
var classNames []string

func init() {
	for n, t := range unicode.Scripts {
		classes[n] = t
	}
	for n, t := range unicode.Categories {
		classes[n] = t
	}
	for n := range classes {
		classNames = append(classNames, n)
	}
	sort.Strings(classNames)
}

// ---- files ----

// cliInput writes the font into a container.
func (k *Case) cliInput(f *Font, more func() *Font) (b []byte, kind string, index int) {
	b = f.bytes(k)
	switch k.U(8) {
	case 0:
		return k.genWOFF(f.version(), f.tables).b, "woff", 0
	case 1:
		return k.genWOFF2(f).b, "woff2", 0
	case 2:
		return k.genEOT(b).b, "eot", 0
	case 3:
		if more == nil {
			break
		}
		fonts := []*Font{f}
		for i := k.I(0, 2); 0 < i; i-- {
			fonts = append(fonts, more())
		}
		i := k.U(len(fonts))
		fonts[0], fonts[i] = fonts[i], fonts[0]
		b, _, _ = k.genCollection(fonts)
		return b, "ttc", i
	}
	return b, "sfnt", 0
}

// cliFont decodes an output file.
func (k *Case) cliFont(b []byte, mime string, b64 bool, m *mFont, what string) *font.SFNT {
	k.Helper()
	if b64 {
		d, err := base64.StdEncoding.DecodeString(string(b))
		if err != nil {
			k.failf("%s: output is not base64: %v", what, err)
		}
		b = d
	}
	k.artifact("output", b)
	want := map[string]string{"font/truetype": "\x00\x01\x00\x00", "font/opentype": "OTTO", "font/woff2": "wOF2"}[mime]
	if len(b) < 4 || string(b[:4]) != want && !(mime == "font/truetype" && string(b[:4]) == "true") {
		k.failf("%s: output does not start like a %s file: % x", what, mime, b[:min(4, len(b))])
	}
	if mime == "font/woff2" {
		if _, err := readWOFF2(b); err != nil {
			k.failf("%s: WOFF2 output: %v", what, err)
		}
		k.guard("decoding the output", func() {
			d, err := font.ToSFNT(b)
			if err != nil {
				k.failf("%s: WOFF2 output is rejected: %v", what, err)
			}
			b = d
		})
	}
	if _, err := refDirectory(b); err != nil {
		k.failf("%s: output: %v", what, err)
	}
	return k.mustParse(b, what+": output")
}

// fmtNames are the acceptable expansions of a name pattern.
func fmtNames(pat string, gid int, name string, runes []rune) []string {
	if len(runes) == 0 && strings.Contains(strings.ReplaceAll(pat, "%%", ""), "%u") {
		return []string{""}
	}
	if name == "" && strings.Contains(strings.ReplaceAll(pat, "%%", ""), "%n") {
		return []string{""}
	}
	rs := runes
	if len(rs) == 0 {
		rs = []rune{0}
	}
	var out []string
	for _, r := range rs {
		out = append(out, strings.NewReplacer("%%", "%", "%i", fmt.Sprint(gid), "%n", name, "%u", fmt.Sprintf("%x", r)).Replace(pat))
	}
	return out
}

func (k *Case) genPattern() string {
	pat := ""
	for i := k.I(1, 3); 0 < i; i-- {
		pat += pick(k, "%i", "%n", "%u", "g", "uni", "_", ".", "%%", "x-", "é")
	}
	if strings.HasPrefix(pat, "-") {
		pat = "a" + pat
	}
	return pat
}

func backRunes(m *mFont) map[int][]rune {
	back := map[int][]rune{}
	for _, r := range sortedRuneSet(m.runes) {
		for g := range m.runes[r] {
			back[g] = append(back[g], r)
		}
	}
	return back
}

var summaryRe = regexp.MustCompile(`(\d+) => (\d+) glyphs`)

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func mimeOf(cff bool) string {
	if cff {
		return "font/opentype"
	}
	return "font/truetype"
}

func extOf(cff bool) string {
	if cff {
		return ".otf"
	}
	return ".ttf"
}

func TestP39(t *testing.T) {
	run(t, "P39", "the selection keeps at least one glyph besides the missing one and drops others, or a bad use is refused; distinct by options and font", func(c *Ctx) {
		c.check("subset", c.n(400, 7000), func(k *Case) {
			o := editOpt(k)
			o.BigN, o.HugeN = k.P(10), 0
			f := k.genFont(o)
			if k.P(35) { // plain text, with the characters that need escapes
				mp := map[rune]int{}
				for r := rune(0); r < 0x100; r++ {
					if x := mix(uint64(r) + uint64(f.N())<<8); x%3 != 0 || r == '-' || r == ',' {
						mp[r] = 1 + k.U(max(1, f.N()-1))
					}
				}
				if f.N() == 1 {
					clear(mp)
				}
				f.Subs = []*Sub{{Platform: 3, Encoding: 1, Format: 4, Map: mp}}
			} else {
				k.tweakMap(f)
			}
			in, kind, index := k.cliInput(f, func() *Font { return k.genFont(FontOpt{MaxN: 4}) })
			if kind == "woff2" {
				f.withoutZeroConts()
			}
			k.artifact("input", in)
			m := modelOf(f)
			sel := k.genSelection(f, m)
			d := k.cliDir()
			defer d.remove()

			args := []string{}
			opt := append([]string{}, sel.args...)
			if index != 0 || k.P(5) {
				opt = append(opt, "-i", fmt.Sprint(index))
			}
			input := pick(k, "in.font", "font.ttf", "a b.woff", "x.otf")
			stdin := k.P(12)
			var sin []byte
			if stdin {
				input, sin = "-", in
			} else {
				d.put(input, in)
			}
			pat := ""
			if k.P(25) {
				pat = k.genPattern()
				opt = append(opt, "--glyph-name="+pat)
			}
			b64 := k.P(10)
			if b64 {
				opt = append(opt, "-e", "base64")
			}
			quiet := k.P(20)
			if quiet {
				opt = append(opt, "-q")
			}
			// outputs
			mimes := map[string]string{}
			var outs []string
			typ := ""
			inplace := false
			switch k.U(8) {
			case 0: // explicit type
				typ = pick(k, mimeOf(f.CFF), "font/woff2")
				opt = append(opt, "-t", typ)
				outs = []string{pick(k, "out", "out.bin", "out.ttf", "out.woff", "out.woff2")}
			case 1: // several
				outs = []string{"one" + extOf(f.CFF), "two.woff2"}
				if k.B() {
					outs = append(outs, "three"+extOf(f.CFF))
				}
			case 2: // standard output, in the format of the input
				if typ = ""; kind == "woff" || kind == "eot" || kind == "ttc" && f.CFF {
					typ = pick(k, mimeOf(f.CFF), "font/woff2")
					opt = append(opt, "-t", typ)
				}
				outs = []string{"-"}
			case 3: // in place
				inplace = !stdin
				if !stdin {
					typ = pick(k, mimeOf(f.CFF), "font/woff2")
					opt = append(opt, "-f", "-t", typ)
					outs = []string{input}
					break
				}
				fallthrough
			case 4:
				outs = []string{"out.woff2"}
			default:
				outs = []string{"out" + extOf(f.CFF)}
			}
			for _, out := range outs {
				mime := typ
				if mime == "" {
					switch filepath.Ext(out) {
					case ".woff2":
						mime = "font/woff2"
					case ".ttf", ".otf":
						mime = mimeOf(f.CFF)
					default:
						mime = map[string]string{"woff2": "font/woff2"}[kind]
						if mime == "" {
							mime = mimeOf(f.CFF)
						}
					}
				}
				mimes[out] = mime
				if !inplace {
					opt = append(opt, pick(k, "-o", "--outputs"), out)
				}
			}
			args = append(args, "subset")
			if first := k.B(); first {
				args = append(append(args, opt...), input)
			} else {
				args = append(append(args, input), opt...)
			}
			ask := false
			if !inplace && outs[0] != "-" && k.P(12) {
				// the output exists
				d.put(outs[0], []byte("old"))
				if k.B() {
					args = append(args, "-f")
				} else if !stdin {
					ask = true
					sin = []byte("y\n")
				} else {
					args = append(args, "-f")
				}
			}

			list := []uint16{}
			for i := 0; i < f.N(); i++ {
				if sel.set[i] {
					list = append(list, uint16(i))
				}
			}
			// the new names
			back := backRunes(m)
			var names [][]string
			tooLong := false
			if pat != "" {
				for _, g := range list {
					ns := fmtNames(pat, int(g), f.wantName(int(g)), back[int(g)])
					for _, x := range ns {
						tooLong = tooLong || 63 < len(x)
					}
					names = append(names, ns)
				}
			}
			if tooLong {
				// at most 63 bytes can be stored in the post table
				k.tool(d, sin, args...)
				return
			}
			r := k.toolOK(d, sin, args...)
			what := fmt.Sprintf("fontcmd %q", args)
			written := []string{}
			for _, o := range outs {
				if o != "-" {
					written = append(written, o)
				}
			}
			got := k.sameFiles(d, what, written...)
			for _, o := range outs {
				b := got[o]
				if o == "-" {
					b = r.out
				}
				s2 := k.cliFont(b, mimes[o], b64, m, what)
				m2 := k.modelSubset(m, list, []string{"min"}, s2)
				k.checkEdited(s2, m2, what, partOutlines|partMetrics|partCmap|partKern)
				if pat != "" {
					for i, ns := range names {
						x := s2.GlyphName(uint16(i))
						if f.CFF && i == 0 {
							ns = []string{".notdef"}
						} else if i == 0 && strings.Contains(pat, "%u") {
							continue // the missing glyph may or may not have code points
						}
						if !has(ns, x) {
							k.failf("%s: glyph %d (glyph %d of the input) is named %q, expected %q", what, i, list[i], x, ns)
						}
					}
				} else if !f.CFF {
					for i := 0; i < m2.N(); i++ {
						if x := s2.GlyphName(uint16(i)); x != "" {
							k.failf("%s: glyph %d is named %q", what, i, x)
						}
					}
				}
				if o != "-" && !quiet && !ask {
					ok := false
					for _, l := range strings.Split(string(r.out), "\n") {
						if sm := summaryRe.FindStringSubmatch(l); sm != nil && strings.HasPrefix(l, o+":") {
							ok = true
							if sm[1] != fmt.Sprint(f.N()) || sm[2] != fmt.Sprint(m2.N()) {
								k.failf("%s: reports %q for %d glyphs and %d after", what, l, f.N(), m2.N())
							}
						}
					}
					if !ok {
						k.failf("%s: no summary of %q in %q", what, o, r.out)
					}
				}
			}
			if quiet && !ask && outs[0] != "-" && len(r.out) != 0 {
				k.failf("%s: -q prints %q", what, r.out)
			}
			k.class("input " + kind)
			for x := range sel.kinds {
				k.class("option " + x)
			}
			k.classIf(stdin, "standard input")
			k.classIf(outs[0] == "-", "standard output")
			k.classIf(inplace, "in place")
			k.classIf(pat != "", "new names")
			k.classIf(ask, "asks before overwriting")
			if 1 < len(list) && len(list) < f.N() {
				k.nontrivial([]byte(fmt.Sprint(args, len(in))), func() string {
					return fmt.Sprintf("%v: fontcmd %q keeps glyphs %v", f, args, list)
				})
			}
		})

		c.check("errors", c.n(300, 5000), func(k *Case) {
			f := k.genFont(FontOpt{Edit: true, PlainMap: true, NoCID: true, MaxN: 8})
			in, kind, index := k.cliInput(f, func() *Font { return k.genFont(FontOpt{MaxN: 3}) })
			d := k.cliDir()
			defer d.remove()
			input, out := "in.x", "out"+extOf(f.CFF)
			args := []string{"subset"}
			var sin []byte
			mayWrite, mayPass := "", false
			why := ""
			bad := func(w string, a ...string) {
				why = w
				args = append(args, a...)
			}
			ok := pick(k, "-g1", "-g0", "-u41-43", "-cA", "-rL")
			if f.N() == 1 && ok == "-g1" {
				ok = "-g0"
			}
			if k.B() {
				args = append(args, ok)
			}
			if index != 0 {
				args = append(args, "-i", fmt.Sprint(index))
			}
			switch k.U(16) {
			case 0:
				bad("bad glyph ID", "-g"+pick(k, "x", "0x1", "1.5", "1-x", "x-1", "-", "1-", "65536", "70000", "4294967297", "99999999999999999999", "1,x", "1 2", "1--2", "+"))
			case 1:
				bad("negative or reversed glyph IDs", "--glyph="+pick(k, "-1", "-1-3", "3-1", "0-65536", "1-99999999999"))
			case 2:
				n := f.N()
				bad("no such glyph", "-g"+pick(k, fmt.Sprint(n), fmt.Sprintf("0-%d", n), "65535", fmt.Sprintf("%d-65535", n), "65534-65535"))
			case 3:
				bad("bad code point", "-u"+pick(k, "xyz", "U+41", "41-", "-", "41-zz", "5-4", "FFFFFFFFF", "0-110000", "1-FFFFFFFFFFFFFFFFF", "110000-110001", "41 42"))
			case 4:
				bad("bad class", "-r"+pick(k, "latin", "Nope", "Latin Greek", "ASCII_Hex_Digit", "l", ""))
				if args[len(args)-1] == "-r" {
					args[len(args)-1] = "-rx"
				}
			case 5:
				bad("bad encoding", "-e", pick(k, "hex", "BASE64", "base32", "base64,"))
			case 6:
				bad("unsupported type", "-t", pick(k, "font/woff", "application/vnd.ms-fontobject", "font/ttf", "woff2", "text/css"))
			case 7:
				out = pick(k, "out.woff", "out.eot")
				bad("unsupported output")
			case 8:
				bad("other outlines", "-t", mimeOf(!f.CFF))
			case 9:
				out = "out" + extOf(!f.CFF)
				bad("other outlines by name")
			case 10: // unusable input
				switch k.U(6) {
				case 0:
					in = nil
				case 1:
					in = k.blob(k.U(500))
					if 4 < len(in) {
						copy(in, pick(k, "\x00\x01\x00\x00", "OTTO", "wOFF", "wOF2", "ttcf", "abcd"))
					}
				case 2: // within the headers, so that something is missing for sure
					in = in[:k.U(min(len(in), 28))]
				case 3:
					in = in[:k.U(len(in))]
					mayPass = kind != "sfnt" // say, EOT fonts and metadata after the tables
				case 4:
					b := append([]byte{}, in...)
					copy(b, "XXXX")
					in = b
					mayPass = kind == "eot" // the size of the file is not relied on
				default:
					in = append([]byte("junk"), in...)
				}
				why = "unusable input"
				if _, err := font.MediaType(in); err == nil && bytes.Equal(in, nil) {
					mayPass = true
				}
			case 11:
				why = "missing input"
				input = pick(k, "nothere.ttf", "no/where/font.ttf", "dir")
				if input == "dir" {
					os.Mkdir(filepath.Join(d.dir, "dir"), 0o755)
					d.files["dir"] = nil
				}
			case 12:
				if kind == "ttc" {
					bad("no such font of the collection", "-i", pick(k, "50", "-1", "65536", "4294967296"))
				} else {
					bad("no collection", "-i", pick(k, "1", "2", "-1", "65536"))
				}
			case 13: // exists
				why = "output exists"
				d.put(out, []byte("old"))
				sin = []byte(pick(k, "", "n\n", "no\n", "x\n", "\n", "N"))
			case 14:
				why = "output in no directory"
				out = "no/such/" + out
			default: // escapes that are none: no crash
				why = "broken escapes"
				mayPass = true
				mayWrite = out
				args = append(args, "-c"+pick(k, "a", "", "x-")+pick(k, `\`, `\x`, `\x4`, `\u004`, `\U0000004`, `\xzz`, `\uD8000`, `\U00110000`, `\UFFFFFFFF`, `\q`, `\u`, `\U`, `a-\x`, `\x4-z`, `-\UFFFFFFFF`, `\x00-`, `z-a`, `---`, `a--`, `-a-`, `\\-\\\`)+pick(k, "", "b", "-"))
			}
			if kind == "sfnt" || input == "in.x" {
				d.put("in.x", in)
			}
			k.artifact("input", in)
			args = append(args, "-o", out, input)
			r := k.tool(d, sin, args...)
			if r.code == 0 && !mayPass {
				k.failf("fontcmd %q is accepted (%s): %s %s", args, why, r.out, r.err)
			}
			if r.code != 0 && len(r.err) == 0 {
				k.failf("fontcmd %q fails without a message", args)
			}
			if r.code == 0 {
				mayWrite = out
			}
			if _, err := os.Stat(filepath.Join(d.dir, out)); mayWrite != "" && err == nil {
				k.sameFiles(d, "bad use", mayWrite)
			} else {
				k.sameFiles(d, fmt.Sprintf("fontcmd %q (%s)", args, why))
			}
			k.class(why)
			k.nontrivial([]byte(fmt.Sprint(args, len(in))), func() string { return fmt.Sprintf("%s: fontcmd %q", why, args) })
		})

		c.check("large", c.n(1, 12), func(k *Case) {
			f := k.manyGlyphs(pick(k, 40000, 33000, 65535))
			in := f.bytes(k)
			k.artifact("input", in)
			m := modelOf(f)
			d := k.cliDir()
			defer d.remove()
			d.put("in.ttf", in)
			set := map[int]bool{0: true}
			var els []string
			for i := k.I(1, 4); 0 < i; i-- {
				a := k.U(f.N())
				if k.P(60) {
					a = f.N() - 1 - k.U(200)
				}
				b := min(f.N()-1, a+k.U(300))
				els = append(els, fmt.Sprintf("%d-%d", a, b))
				for ; a <= b; a++ {
					set[a] = true
				}
			}
			args := append([]string{"subset", "in.ttf", "-o", "out.ttf"}, k.option("g", "glyph", els)...)
			var list []uint16
			for i := 0; i < f.N(); i++ {
				if set[i] {
					list = append(list, uint16(i))
				}
			}
			k.toolOK(d, nil, args...)
			got := k.sameFiles(d, "large font", "out.ttf")
			what := fmt.Sprintf("fontcmd %q", args)
			s2 := k.cliFont(got["out.ttf"], "font/truetype", false, m, what)
			k.checkEdited(s2, k.modelSubset(m, list, []string{"min"}, s2), what, partOutlines|partMetrics|partCmap)
			k.nontrivial([]byte(fmt.Sprint(args)), func() string { return fmt.Sprintf("%v: %q", f, args) })
		})
	})
}
