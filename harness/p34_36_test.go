package harness

import (
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"slices"
	"sort"
	"strings"
	"syscall"
	"testing"
	"unicode"

	"github.com/tdewolff/font"
)

var weights = []font.Style{font.Thin, font.ExtraLight, font.Light, font.Regular, font.Medium, font.SemiBold, font.Bold, font.ExtraBold, font.Black}

// the accepted words
var weightWords = map[font.Style][]string{
	font.Thin:       {"Thin", "Hairline"},
	font.ExtraLight: {"ExtraLight", "UltraLight", "Extra Light", "ExtraLt"},
	font.Light:      {"Light", "Lt", "SemiLight"},
	font.Regular:    {"", "Regular", "Normal", "Normál", "Reg", "Roman", "Text", "Book"},
	font.Medium:     {"Medium", "Med"},
	font.SemiBold:   {"SemiBold", "Semibold", "Demi", "Semi Bold", "Semibd"},
	font.Bold:       {"Bold", "Negrita", "Gras", "Bol"},
	font.ExtraBold:  {"ExtraBold", "Extra Bold"},
	font.Black:      {"Black", "Heavy"},
}
var slantWords = []string{"Italic", "Oblique", "Slanted", "Italique", "Cursiva", "Slant", "Ita", "Obl"}

// spellings are all accepted style texts without surrounding space.
var spellings = func() map[string]font.Style {
	m := map[string]font.Style{}
	for _, w := range weights {
		for _, word := range weightWords[w] {
			m[word] = w
			for _, slant := range slantWords {
				for _, sep := range []string{"", " ", "-"} {
					if word == "" && sep == " " {
						continue
					}
					m[word+sep+slant] = w | font.Italic
				}
			}
		}
	}
	return m
}()
var spellingList = func() []string {
	var l []string
	for s := range spellings {
		l = append(l, s)
	}
	sort.Strings(l)
	return l
}()

func wantStyle(s string) font.Style {
	if st, ok := spellings[strings.TrimSpace(s)]; ok {
		return st
	}
	return font.UnknownStyle
}

func (k *Case) genStyle() font.Style {
	st := weights[k.U(9)]
	if k.B() {
		st |= font.Italic
	}
	return st
}

var spaces = []string{"", "", " ", "\t", "\n", "  ", "\u00a0", "\u2003", "\r\n"}

func TestP34(t *testing.T) {
	run(t, "P34", "a text that is a style or one edit away from one, or a weight that is no plain hundred; distinct by input", func(c *Ctx) {
		c.check("all", 1, func(k *Case) {
			// the whole domain of styles and spellings, and a dense range of weights
			for _, w := range weights {
				for _, it := range []font.Style{0, font.Italic} {
					st := w | it
					if got := font.ParseStyle(st.String()); got != st {
						k.failf("style %d has text %q, which parses as %d", st, st.String(), got)
					}
					if st.Weight() != w || st.Italic() != (it != 0) {
						k.failf("style %d has weight %d and italic %v", st, st.Weight(), st.Italic())
					}
					if i := slices.Index(weights, w); font.ParseStyleCSS(100*(i+1), it != 0) != st {
						k.failf("weight %d, italic %v is style %d, expected %d", 100*(i+1), it != 0, font.ParseStyleCSS(100*(i+1), it != 0), st)
					}
				}
			}
			if font.ParseStyle(font.UnknownStyle.String()) != font.UnknownStyle {
				k.failf("the unknown style has text %q, which parses as %d", font.UnknownStyle.String(), font.ParseStyle(font.UnknownStyle.String()))
			}
			seen := map[string]bool{}
			for _, w := range weights {
				for _, it := range []font.Style{0, font.Italic} {
					if s := (w | it).String(); seen[s] {
						k.failf("two styles have text %q", s)
					} else {
						seen[s] = true
					}
				}
			}
			for _, s := range spellingList {
				if got := font.ParseStyle(s); got != spellings[s] {
					k.failf("ParseStyle(%q) = %d (%v), expected %d (%v)", s, got, got, spellings[s], spellings[s])
				}
				k.nontrivial([]byte(s), func() string { return s })
			}
			for w := -2000; w <= 3000; w++ {
				k.checkWeight(w)
			}
		})
		c.check("text", c.n(30000, 600000), func(k *Case) {
			s := spellingList[k.U(len(spellingList))]
			switch k.U(8) {
			case 0, 1: // surrounding space
				s = pick(k, spaces...) + s + pick(k, spaces...)
			case 2, 3: // one edit
				r := []rune(s)
				i := k.U(len(r) + 1)
				x := rune(pick(k, ' ', '-', 'x', 'I', 'i', 't', '_', '\u00a0', '\u2010', 0, 0x1F600, 'É', '.'))
				switch {
				case k.B() || i == len(r):
					r = slices.Insert(r, i, x)
				case k.B():
					r[i] = x
				default:
					r = slices.Delete(r, i, i+1)
				}
				s = string(r)
			case 4: // words glued together
				w := weightWords[weights[k.U(9)]]
				s = w[k.U(len(w))] + pick(k, "", " ", "-", "  ", " -", "- ", "_", "\t") + slantWords[k.U(len(slantWords))] + pick(k, "", "", " ", "-", "Italic", " Italic", "-Obl")
			case 5: // in the other order
				s = slantWords[k.U(len(slantWords))] + pick(k, "", " ", "-") + s
			case 6: // other case
				if k.B() {
					s = strings.ToLower(s)
				} else {
					s = strings.ToUpper(s)
				}
			case 7:
				s = k.genText()
			}
			want := wantStyle(s)
			var got font.Style
			k.guard(fmt.Sprintf("ParseStyle(%q)", s), func() { got = font.ParseStyle(s) })
			if got != want {
				k.failf("ParseStyle(%q) = %d (%v), expected %d (%v)", s, got, got, want, want)
			}
			k.class("known %v", want != font.UnknownStyle)
			k.nontrivial([]byte(s), func() string { return fmt.Sprintf("%q", s) })
		})
		c.check("weight", c.n(6000, 100000), func(k *Case) {
			w := k.I(-1000, 2000)
			switch k.U(4) {
			case 0:
				w = 100*k.I(0, 10) + k.I(-60, 60)
			case 1:
				w = pick(k, math.MaxInt, math.MinInt, math.MaxInt32, math.MinInt32, math.MaxInt-k.U(1000), math.MinInt+k.U(1000), 1<<k.U(63), -1<<k.U(63))
			}
			k.checkWeight(w)
			if w%100 != 0 {
				k.nontrivial(fmt.Append(nil, w), func() string { return fmt.Sprint(w) })
			}
		})
	})
}

func (k *Case) checkWeight(w int) {
	k.Helper()
	var want []font.Style
	switch {
	case w < 100:
		want = []font.Style{font.Thin}
	case 900 < w:
		want = []font.Style{font.Black}
	default:
		i := w/100 - 1
		switch {
		case w%100 < 50:
			want = []font.Style{weights[i]}
		case 50 < w%100:
			want = []font.Style{weights[i+1]}
		default: // either is as near
			want = []font.Style{weights[i], weights[i+1]}
		}
	}
	for _, it := range []font.Style{0, font.Italic} {
		var got font.Style
		k.guard("ParseStyleCSS", func() { got = font.ParseStyleCSS(w, it != 0) })
		ok := false
		for _, s := range want {
			ok = ok || got == s|it
		}
		if !ok {
			k.failf("ParseStyleCSS(%d, %v) = %d (%v), expected one of %v", w, it != 0, got, got, want)
		}
	}
}

// ---- matching ----

// fallback lists the weights to try, in CSS order.
func fallback(w font.Style) []font.Style {
	i := slices.Index(weights, w)
	out := []font.Style{w}
	lighter := func() {
		for j := i - 1; 0 <= j; j-- {
			out = append(out, weights[j])
		}
	}
	heavier := func() {
		for j := i + 1; j < 9; j++ {
			out = append(out, weights[j])
		}
	}
	switch {
	case w == font.Regular:
		out = append(out, font.Medium)
		lighter()
		heavier()
	case w == font.Medium:
		out = append(out, font.Regular)
		lighter()
		heavier()
	case i < 3:
		lighter()
		heavier()
	default:
		heavier()
		lighter()
	}
	return out
}

type collection struct {
	generics map[string][]string
	fonts    map[string]map[font.Style]font.FontMetadata
}

func (m *collection) match(name string, st font.Style) (font.FontMetadata, bool) {
	for _, part := range strings.Split(name, ",") {
		part = strings.TrimFunc(part, unicode.IsSpace)
		fams := []string{part}
		if g, ok := m.generics[part]; ok {
			fams = g
		}
		for _, fam := range fams {
			if len(m.fonts[fam]) == 0 {
				continue
			}
			for _, w := range fallback(st & 0xFF) {
				if md, ok := m.fonts[fam][w|st&font.Italic]; ok {
					return md, true
				}
			}
			return font.FontMetadata{}, false
		}
	}
	return font.FontMetadata{}, false
}

func cloneFonts(f map[string]map[font.Style]font.FontMetadata) map[string]map[font.Style]font.FontMetadata {
	out := map[string]map[font.Style]font.FontMetadata{}
	for fam, m := range f {
		x := map[font.Style]font.FontMetadata{}
		for s, md := range m {
			x[s] = md
		}
		out[fam] = x
	}
	return out
}

func cloneGenerics(g map[string][]string) map[string][]string {
	out := map[string][]string{}
	for n, l := range g {
		out[n] = append([]string{}, l...)
	}
	return out
}

var familyPool = []string{"Noto Serif", "DejaVu Serif", "Arial", "Times", "A", "serif", "b c", "Noto Sans", "monospace", "Ünï", "Foo-Bar", "a", "Arial Black"}

func (k *Case) genGenerics() map[string][]string {
	g := map[string][]string{}
	// lists may share memory: one is the start of the other
	base := []string{}
	for i := k.I(0, 6); 0 < i; i-- {
		base = append(base, familyPool[k.U(len(familyPool))])
	}
	for _, name := range []string{"serif", "sans-serif", "monospace", "gen", "Times", "empty"} {
		switch k.U(5) {
		case 0, 1:
			i := k.U(len(base) + 1)
			j := i + k.U(len(base)+1-i)
			g[name] = base[i:j]
		case 2:
			l := make([]string, 0, k.U(8))
			for i := k.I(0, 4); 0 < i; i-- {
				l = append(l, familyPool[k.U(len(familyPool))])
			}
			g[name] = l
		case 3:
			if name == "empty" {
				g[name] = nil
			}
		}
	}
	return g
}

func (k *Case) genFamilyList() string {
	var parts []string
	for i := 1 + k.I(0, 4); 0 < i; i-- {
		p := familyPool[k.U(len(familyPool))]
		switch k.U(6) {
		case 0, 1:
			p = pick(k, "serif", "sans-serif", "monospace", "gen", "Times", "empty")
		case 2:
			p = pick(k, "", "nope", "SERIF", "arial", "Noto  Serif", "Arial;Times")
		}
		parts = append(parts, pick(k, "", "", " ", "  ", "\t")+p+pick(k, "", "", " ", "\n"))
	}
	return strings.Join(parts, ",")
}

func TestP35(t *testing.T) {
	run(t, "P35", "a query whose first listed present family does not have the very style, or that goes through a generic name; distinct by collection and query", func(c *Ctx) {
		c.check("match", c.n(9000, 200000), func(k *Case) {
			m := &collection{generics: k.genGenerics(), fonts: map[string]map[font.Style]font.FontMetadata{}}
			if k.P(20) {
				m.generics = font.DefaultGenericFonts()
			}
			s := &font.SystemFonts{Generics: m.generics, Fonts: map[string]map[font.Style]font.FontMetadata{}}
			if k.P(10) {
				s.Fonts = nil // the zero collection
			}
			m.generics = cloneGenerics(m.generics)
			add := func() {
				md := font.FontMetadata{Filename: fmt.Sprintf("/f%d", k.U(1000)), Family: familyPool[k.U(len(familyPool))], Style: k.genStyle()}
				k.guard("Add", func() { s.Add(md) })
				if m.fonts[md.Family] == nil {
					m.fonts[md.Family] = map[font.Style]font.FontMetadata{}
				}
				m.fonts[md.Family][md.Style] = md
			}
			for i := k.I(0, 12); 0 < i; i-- {
				add()
			}
			type q struct {
				name string
				st   font.Style
			}
			var asked []q
			var key []byte
			hard := false
			for i := 1 + k.I(0, 8); 0 < i; i-- {
				if k.P(20) {
					add()
				}
				x := q{k.genFamilyList(), k.genStyle()}
				if 0 < len(asked) && k.P(30) { // once more
					x = asked[k.U(len(asked))]
				}
				asked = append(asked, x)
				var got font.FontMetadata
				var ok bool
				k.guard("Match", func() { got, ok = s.Match(x.name, x.st) })
				want, wok := m.match(x.name, x.st)
				if got != want || ok != wok {
					k.failf("Match(%q, %v) = %v, %v, expected %v, %v (fonts %v, generic names %q)", x.name, x.st, got, ok, want, wok, m.fonts, m.generics)
				}
				k.class("found %v", ok)
				if ok && got.Style != x.st || strings.Contains(x.name, "serif") {
					hard = true
				}
				key = fmt.Append(key, x)
				if k.P(20) {
					k.guard("String", func() { _ = s.String() })
				}
				have := cloneFonts(s.Fonts)
				if !reflect.DeepEqual(have, m.fonts) {
					k.failf("Match(%q, %v) changed the fonts: %v, expected %v", x.name, x.st, have, m.fonts)
				}
				if g := cloneGenerics(s.Generics); !reflect.DeepEqual(g, m.generics) {
					k.failf("Match(%q, %v) changed the generic names: %q, expected %q", x.name, x.st, g, m.generics)
				}
			}
			if hard {
				k.nontrivial(fmt.Append(key, m.fonts, m.generics), func() string { return fmt.Sprintf("%q %v in %v", asked[0].name, asked[0].st, m.fonts) })
			}
		})
	})
}

// ---- scanning ----

type scanFile struct {
	path     string // as it is to be recorded
	families []string
	styles   []font.Style
	must     bool // has to be recorded
	desc     string
}

var langsEnglish = []int{0x409, 0x809, 0x1009, 0xC09}
var langsOther = []int{0x407, 0x40C, 0x411, 0x413, 0x40A, 0x804, 0x419}

// genScanNames draws name records and tells what a scan has to make of them.
func (k *Case) genScanNames() (recs []NameRec, families []string, styles []font.Style) {
	type key struct{ lang, id int }
	english := map[int][]string{} // id to texts
	add := func(p, e, l, id int, text string, raw []byte) {
		recs = append(recs, NameRec{Platform: p, Encoding: e, Language: l, ID: id, Raw: raw, Text: text})
	}
	family := func() string {
		if k.P(60) {
			return familyPool[k.U(len(familyPool))]
		}
		return k.genText()
	}
	style := func() string {
		switch k.U(8) {
		case 0:
			return pick(k, "Condensed", "Bold Condensed", "x", "Fett", "Gras Italique!")
		case 1, 2:
			return k.genStyle().String()
		}
		return spellingList[k.U(len(spellingList))]
	}
	text := func(id int) string {
		if id == 1 || id == 16 {
			return family()
		}
		return style()
	}
	enc := pick(k, 1, 1, 10, 0)
	nl := 1
	if k.P(15) {
		nl = 2
	}
	if k.P(4) {
		nl = 0
	}
	langs := k.shuffleInts(langsEnglish)[:nl]
	used := map[key]bool{}
	for _, l := range langs {
		for _, id := range []int{1, 2, 16, 17} {
			if id == 1 && k.P(96) || id == 2 && k.P(93) || 2 < id && k.P(40) {
				if used[key{l, id}] {
					continue
				}
				used[key{l, id}] = true
				t := text(id)
				english[id] = append(english[id], t)
				add(3, enc, l, id, t, utf16be(t))
			}
		}
	}
	// records in other languages and of other platforms
	for i := k.I(0, 6); 0 < i; i-- {
		id := pick(k, 1, 2, 16, 17, 4)
		t := text(id)
		switch k.U(4) {
		case 0, 1:
			add(3, enc, langsOther[k.U(len(langsOther))], id, t, utf16be(t))
		case 2: // Macintosh: languages are numbered otherwise, 9 is Norwegian
			add(1, 0, pick(k, 0, 9, 1, 2), id, "", []byte(pick(k, "Mac Name", "Mac", "Bold", "Italic")))
		case 3:
			add(0, 3, pick(k, 0, 9), id, t, utf16be(t))
		}
	}
	for i := k.I(0, 4); 0 < i; i-- {
		t := k.genText()
		add(3, enc, 0x409, pick(k, 0, 3, 4, 5, 6, 7, 18, 25, 256), t, utf16be(t))
	}
	if k.P(70) {
		sort.SliceStable(recs, func(i, j int) bool {
			a, b := recs[i], recs[j]
			return a.Platform<<48+a.Encoding<<32+a.Language<<16+a.ID < b.Platform<<48+b.Encoding<<32+b.Language<<16+b.ID
		})
	} else {
		recs = k.shuffleRecs(recs)
	}
	fams := english[16]
	if len(fams) == 0 {
		fams = english[1]
	}
	for _, f := range fams {
		if f != "" {
			families = append(families, f)
		}
	}
	subs := english[17]
	if len(subs) == 0 {
		subs = english[2]
	}
	if len(subs) == 0 {
		subs = []string{""}
	}
	for _, s := range subs {
		styles = append(styles, wantStyle(s))
	}
	return recs, families, styles
}

func (k *Case) shuffleInts(l []int) []int {
	l = append([]int{}, l...)
	for i := len(l) - 1; 0 < i; i-- {
		j := k.U(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func (k *Case) shuffleRecs(l []NameRec) []NameRec {
	l = append([]NameRec{}, l...)
	for i := len(l) - 1; 0 < i; i-- {
		j := k.U(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

func scanBase() string {
	dir := os.Getenv("VERIF_SCRATCH")
	if dir != "" {
		os.Chmod(dir, 0o711)
		os.Chmod(filepath.Dir(dir), 0o711)
	}
	return dir
}

// asNobody runs f with the file permissions of an unprivileged user on this thread, if possible.
func asNobody(f func()) bool {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	probe, err := os.CreateTemp(scanBase(), "probe")
	if err != nil {
		return false
	}
	probe.Close()
	defer os.Remove(probe.Name())
	os.Chmod(probe.Name(), 0)
	syscall.RawSyscall(syscall.SYS_SETFSUID, 65534, 0, 0)
	defer syscall.RawSyscall(syscall.SYS_SETFSUID, 0, 0, 0)
	if x, err := os.Open(probe.Name()); err == nil {
		x.Close()
		return false
	}
	f()
	return true
}

var fileNames = []string{"a", "b", "font", "x y", "Ünï", ".hidden", "a.b", "Font-Bold", "woff", "1", "ttf", "-rf", "new\nline"}

func TestP36(t *testing.T) {
	run(t, "P36", "a tree with at least two fonts to find, one of them below the top; distinct by tree", func(c *Ctx) {
		c.check("scan", c.n(1200, 20000), func(k *Case) {
			root, err := os.MkdirTemp(scanBase(), "scan")
			if err != nil {
				panic(err)
			}
			os.Chmod(root, 0o755)
			defer os.RemoveAll(root)
			rel := false
			if wd, err := os.Getwd(); err == nil && filepath.Dir(root) == wd && k.P(15) {
				rel = true
			}
			name := func(p string) string { // how a path is recorded
				if rel {
					return filepath.Join(filepath.Base(root), p)
				}
				return filepath.Join(root, p)
			}
			dirs := []string{"."}
			for i := k.I(0, 6); 0 < i; i-- {
				d := filepath.Join(dirs[k.U(len(dirs))], fmt.Sprintf("%s%d", pick(k, "d", "D ir", ".d", "x.ttf", "fonts"), len(dirs)))
				dirs = append(dirs, d)
				if err := os.MkdirAll(filepath.Join(root, d), 0o755); err != nil {
					panic(err)
				}
			}
			blocked := map[string]bool{} // unreadable for the scan
			nobody := k.P(20)
			files := map[string]*scanFile{}
			deep, found := false, 0
			var key []byte
			for i := k.I(0, 9); 0 < i; i-- {
				d := dirs[k.U(len(dirs))]
				fn := filepath.Join(d, fmt.Sprintf("%s%d", fileNames[k.U(len(fileNames))], len(files)))
				sf := &scanFile{}
				f := k.genFont(FontOpt{MaxN: 3, NoKern: true, NoVert: true, NoSubrs: true, NoExtra: true})
				f.Names, sf.families, sf.styles = k.genScanNames()
				f.NameV1 = k.P(15)
				f.LangTag = nil
				if f.NameV1 && k.B() {
					f.LangTag = []string{"de-CH", "nl"}
				}
				b := f.bytes(k)
				for _, st := range sf.styles {
					sf.must = sf.must || st != font.UnknownStyle
				}
				for _, st := range sf.styles {
					sf.must = sf.must && st != font.UnknownStyle
				}
				sf.must = sf.must && 0 < len(sf.families)
				ext := ".ttf"
				if k.P(40) {
					ext = ".otf"
				}
				sf.desc = fmt.Sprintf("font of families %q, styles %v", sf.families, sf.styles)
				switch k.U(12) {
				case 0: // other files
					ext = pick(k, ".woff", ".txt", "", ".ttf.bak", ".ttc", ".pdf")
					sf.must, sf.families = false, nil
					sf.desc = "no font file"
				case 1: // damaged
					sf.must = false
					switch k.U(4) {
					case 0:
						b = b[:k.U(len(b))]
					case 1:
						b = k.blob(k.U(2000))
						sf.families = nil
					case 2:
						b = nil
						sf.families = nil
					case 3: // no name table
						d, err := refDirectory(b)
						if err != nil {
							panic(err)
						}
						for i, e := range d.entries {
							if e.tag == "name" {
								copy(b[12+16*i:], "namf")
							}
						}
						sf.families = nil
					}
					sf.desc = "damaged: " + sf.desc
				}
				fn += ext
				full := filepath.Join(root, fn)
				sf.path = name(fn)
				if err := os.WriteFile(full, b, 0o644); err != nil {
					panic(err)
				}
				if nobody && k.P(15) {
					os.Chmod(full, 0)
					sf.must = false
					blocked[fn] = true
				}
				files[sf.path] = sf
				k.note("%s: %s", fn, sf.desc)
				key = append(append(key, fn...), b...)
				if sf.must {
					found++
					deep = deep || d != "."
				}
			}
			for i := k.I(0, 2); 0 < i; i-- { // things that are no files
				p := filepath.Join(root, dirs[k.U(len(dirs))], fmt.Sprintf("other%d.ttf", i))
				switch k.U(3) {
				case 0:
					os.Symlink("/nonexistent/x.ttf", p)
				case 1:
					os.Symlink(root, p) // a loop
				case 2:
					syscall.Mkfifo(p, 0o644)
				}
			}
			if nobody && 1 < len(dirs) && k.P(60) {
				d := dirs[1+k.U(len(dirs)-1)]
				os.Chmod(filepath.Join(root, d), 0)
				blocked[d] = true
				for p, sf := range files {
					if strings.HasPrefix(p, name(d)+"/") {
						sf.must = false
					}
				}
				k.note("directory %s is not readable", d)
				defer os.Chmod(filepath.Join(root, d), 0o755)
			}
			// what to scan
			args := []string{name(".")}
			if k.P(40) {
				args = nil
				for _, d := range dirs {
					if d == "." || k.P(40) {
						args = append(args, name(d))
					}
				}
				args = k.shuffle(args)
			}
			if k.P(30) {
				args = append(args, filepath.Join(root, "missing"))
			}
			if k.P(15) { // not a directory, or not even a possible one
				for _, p := range tagList(pathSet(files)) {
					args = append(args, p, filepath.Join(p, "sub"))
					break
				}
			}
			if k.P(10) {
				args = append(args, filepath.Join(root, strings.Repeat("n", 300)))
			}
			args = k.shuffle(args)
			k.note("directories %q", args)
			var fonts *font.SystemFonts
			scan := func() { k.guard("FindSystemFonts", func() { fonts, err = font.FindSystemFonts(args) }) }
			if nobody {
				if !asNobody(scan) {
					k.class("no unprivileged user")
					return
				}
			} else {
				scan()
			}
			if err != nil {
				k.failf("FindSystemFonts(%q): %v", args, err)
			}
			k.checkScan(fonts, files)
			k.classIf(0 < len(blocked), "something not readable")
			k.classIf(rel, "relative directory")
			k.classIf(1 < len(args), "several directories")
			k.checkSaved(fonts, root)
			if 1 < found && deep {
				k.nontrivial(key, func() string { return fmt.Sprintf("%d fonts to find in %d directories", found, len(dirs)) })
			}
		})
		c.check("save", c.n(1500, 20000), func(k *Case) {
			dir, err := os.MkdirTemp(scanBase(), "save")
			if err != nil {
				panic(err)
			}
			defer os.RemoveAll(dir)
			s := &font.SystemFonts{Generics: k.genGenerics(), Fonts: map[string]map[font.Style]font.FontMetadata{}}
			n := k.I(0, 30)
			for i := 0; i < n; i++ {
				fam := familyPool[k.U(len(familyPool))]
				if k.P(30) {
					fam = k.genText()
				}
				md := font.FontMetadata{Filename: "/" + k.genText(), Family: fam, Style: k.genStyle()}
				k.guard("Add", func() { s.Add(md) })
			}
			k.checkSaved(s, dir)
			if 0 < n {
				k.nontrivial(fmt.Append(nil, s.Fonts, s.Generics), func() string { return fmt.Sprint(s.Fonts) })
			}
		})
	})
}

func pathSet(files map[string]*scanFile) map[string]bool {
	m := map[string]bool{}
	for p := range files {
		m[p] = true
	}
	return m
}

func (k *Case) checkScan(s *font.SystemFonts, files map[string]*scanFile) {
	k.Helper()
	if s == nil {
		k.failf("no collection and no error")
	}
	fits := func(sf *scanFile, fam string, st font.Style) bool {
		return slices.Contains(sf.families, fam) && slices.Contains(sf.styles, st)
	}
	for fam, m := range s.Fonts {
		for st, md := range m {
			sf := files[md.Filename]
			if sf == nil {
				k.failf("the scan records %q, which is no file to record", md.Filename)
			}
			if md.Family != fam || md.Style != st {
				k.failf("the entry of %q, %v says %q, %v", fam, st, md.Family, md.Style)
			}
			if st == font.UnknownStyle || !fits(sf, fam, st) {
				k.failf("the scan records %q as %q, %v, but it is a %s", md.Filename, fam, st, sf.desc)
			}
		}
	}
	for _, p := range tagList(pathSet(files)) {
		sf := files[p]
		if !sf.must {
			continue
		}
		ok := false
		for _, fam := range sf.families {
			for _, st := range sf.styles {
				if _, has := s.Fonts[fam][st]; has {
					ok = true // this one or another of the same family and style
				}
			}
		}
		if !ok {
			k.failf("the scan does not record %q, a %s", p, sf.desc)
		}
	}
	if !reflect.DeepEqual(s.Generics, font.DefaultGenericFonts()) {
		k.failf("the scan does not give the default generic names: %q", s.Generics)
	}
}

func (k *Case) checkSaved(s *font.SystemFonts, dir string) {
	k.Helper()
	fn := filepath.Join(dir, "cache")
	if k.P(30) { // over an older and longer one
		os.WriteFile(fn, k.blob(20000), 0o644)
	}
	wantF, wantG := cloneFonts(s.Fonts), cloneGenerics(s.Generics)
	var err error
	k.guard("Save", func() { err = s.Save(fn) })
	if err != nil {
		k.failf("Save: %v", err)
	}
	var got *font.SystemFonts
	k.guard("LoadSystemFonts", func() { got, err = font.LoadSystemFonts(fn) })
	if err != nil {
		k.failf("LoadSystemFonts: %v", err)
	}
	if !reflect.DeepEqual(cloneFonts(got.Fonts), wantF) || !reflect.DeepEqual(cloneGenerics(got.Generics), wantG) {
		k.failf("the collection %v %q is %v %q after saving and loading", wantF, wantG, got.Fonts, got.Generics)
	}
	if !reflect.DeepEqual(cloneFonts(s.Fonts), wantF) || !reflect.DeepEqual(cloneGenerics(s.Generics), wantG) {
		k.failf("saving changed the collection")
	}
	// a loaded collection works like the first
	for i := 0; i < 3; i++ {
		name, st := k.genFamilyList(), k.genStyle()
		var a, b font.FontMetadata
		var oka, okb bool
		k.guard("Match", func() { a, oka = s.Match(name, st); b, okb = got.Match(name, st) })
		if a != b || oka != okb {
			k.failf("Match(%q, %v) = %v, %v after loading, %v, %v before", name, st, b, okb, a, oka)
		}
	}
	md := font.FontMetadata{Filename: "/new.ttf", Family: "Added Later", Style: font.Regular}
	k.guard("Add after LoadSystemFonts", func() { got.Add(md) })
	if x, ok := got.Match("Added Later", font.Regular); !ok || x != md {
		k.failf("a font added to a loaded collection is not found")
	}
	// what cannot be saved or loaded is told
	k.guard("Save", func() { err = s.Save(filepath.Join(dir, "missing", "cache")) })
	if err == nil {
		k.failf("Save into a missing directory succeeds")
	}
	b, _ := os.ReadFile(fn)
	if k.P(30) && 0 < len(b) {
		cut := k.U(len(b))
		os.WriteFile(fn, b[:cut], 0o644)
		k.guard("LoadSystemFonts", func() { _, err = font.LoadSystemFonts(fn) })
		if err == nil {
			k.failf("LoadSystemFonts accepts %d of %d bytes", cut, len(b))
		}
	}
	k.guard("LoadSystemFonts", func() { _, err = font.LoadSystemFonts(filepath.Join(dir, "nope")) })
	if err == nil {
		k.failf("LoadSystemFonts of a missing file succeeds")
	}
}
