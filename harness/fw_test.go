package harness

// Framework: every property is one Go test TestPnn which calls run(); inside it, each
// sub-check draws its cases with rapid (generation, shrinking and replay). The framework
// counts cases, keeps the (shrunk) failing case as a replay file and writes the result
// for the runner /verif/check.

import (
	"encoding/base64"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

type result struct {
	Property    string         `json:"property"`
	Evaluations int            `json:"evaluations"`
	Hashes      []string       `json:"hashes"`
	Rule        string         `json:"rule"`
	Samples     []string       `json:"samples"`
	Classes     map[string]int `json:"classes"`
	Violations  []violation    `json:"violations"`
	Known       []string       `json:"known"`
	Errors      []string       `json:"errors"`
	Done        bool           `json:"done"`
}

type violation struct {
	Check  string `json:"check"`
	Msg    string `json:"msg"`
	Replay string `json:"replay"`
}

// Ctx is the state of one property's run.
type Ctx struct {
	t        *testing.T
	id       string
	seed     int
	thorough bool
	outDir   string

	mu     sync.Mutex
	res    result
	hashes map[uint64]bool
	perChk map[string]int
	cur    *Case
	name   string
}

// Case is one generated case. A new Case is made each time rapid runs the property.
type Case struct {
	*rapid.T
	c       *Ctx
	arts    []artifact
	notes   []string
	failed  string
	saved   int // 1 + the artifacts that are on disk
	classes map[string]bool
	drawn   []int // the glyphs of the last font that are not padding
}

type artifact struct {
	Name string
	Data []byte
}

func envInt(name string, def int) int {
	if v, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return v
	}
	return def
}

var theCtx *Ctx

func run(t *testing.T, id, rule string, f func(c *Ctx)) {
	c := &Ctx{t: t, id: id}
	c.seed = envInt("VERIF_SEED", 1)
	shard := envInt("VERIF_SHARD", 0)
	c.thorough = os.Getenv("VERIF_TIER") == "thorough"
	c.outDir = os.Getenv("VERIF_OUT")
	if c.outDir == "" {
		c.outDir = t.TempDir()
	}
	c.res = result{Property: id, Rule: rule, Classes: map[string]int{}}
	c.hashes = map[uint64]bool{}
	c.perChk = map[string]int{}
	theCtx = c
	// rapid treats seed 0 as "random", so it is never passed on
	rseed := uint64(c.seed)*1000003 + uint64(shard)*7919 + 17
	set := func(k, v string) {
		if err := flag.Set(k, v); err != nil {
			t.Fatalf("flag %s: %v", k, err)
		}
	}
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		set("rapid.seed", strconv.FormatUint(rseed%(1<<62)+1, 10))
	}
	set("rapid.shrinktime", "12s")
	go c.watchdog()
	defer c.flush(true)
	f(c)
}

func (c *Ctx) flush(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = done
	c.res.Hashes = c.res.Hashes[:0]
	for h := range c.hashes {
		c.res.Hashes = append(c.res.Hashes, strconv.FormatUint(h, 36))
	}
	sort.Strings(c.res.Hashes)
	b, err := json.Marshal(c.res)
	if err == nil {
		err = os.WriteFile(filepath.Join(c.outDir, "result.json"), b, 0o644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
	}
}

// n picks the number of cases for the tier.
func (c *Ctx) n(quick, thorough int) int {
	if v := os.Getenv("VERIF_N"); v != "" {
		f, _ := strconv.ParseFloat(v, 64)
		return max(1, int(float64(quick)*f))
	}
	if c.thorough {
		return thorough
	}
	return quick
}

// check runs n generated cases of one sub-check.
func (c *Ctx) check(name string, n int, f func(k *Case)) {
	if only := os.Getenv("VERIF_ONLY"); only != "" && only != name {
		return
	}
	// sub-checks get distinct, fixed positions in the random stream
	if flag.Lookup("rapid.failfile").Value.String() == "" {
		h := fnv.New32a()
		h.Write([]byte(name))
		base := uint64(c.seed)*1000003 + uint64(envInt("VERIF_SHARD", 0))*7919 + uint64(h.Sum32())
		flag.Set("rapid.seed", strconv.FormatUint(base%(1<<62)+1, 10))
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	failedBefore := false
	c.name = name
	t0 := time.Now()
	ok := c.t.Run(name, func(t *testing.T) {
		rapid.Check(t, func(rt *rapid.T) {
			k := &Case{T: rt, c: c, classes: map[string]bool{}}
			c.cur = k
			defer func() {
				if r := recover(); r != nil {
					tn := reflect.TypeOf(r).String()
					if tn == "rapid.invalidData" {
						panic(r)
					}
					if tn != "rapid.stopTest" {
						k.failed = fmt.Sprintf("panic: %v\n%s", r, debug.Stack())
					}
					failedBefore = true
					panic(r)
				}
				if !failedBefore {
					c.mu.Lock()
					c.res.Evaluations++
					for cl := range k.classes {
						c.res.Classes[name+"/"+cl]++
					}
					c.mu.Unlock()
				}
			}()
			f(k)
		})
	})
	if os.Getenv("VERIF_VERBOSE") != "" {
		fmt.Printf("# %s/%s: n=%d %.2fs\n", c.id, name, n, time.Since(t0).Seconds())
	}
	if !ok {
		k := c.cur
		msg := "check failed (no message recorded)"
		if k != nil && k.failed != "" {
			msg = k.failed
		}
		c.record(name, msg, k)
	}
	c.flush(false)
}

// fixed runs one non-generated case of a sub-check (a saved regression input, say).
func (c *Ctx) record(name, msg string, k *Case) {
	path := filepath.Join(c.outDir, fmt.Sprintf("%s-%s.replay", c.id, name))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, check %s, VERIF_SEED=%d VERIF_SHARD=%d\n\n%s\n", c.id, name, c.seed, envInt("VERIF_SHARD", 0), msg)
	if k != nil {
		for _, s := range k.notes {
			fmt.Fprintf(&sb, "note: %s\n", s)
		}
		for _, a := range k.arts {
			fmt.Fprintf(&sb, "\nartifact %s (%d bytes, base64):\n%s\n", a.Name, len(a.Data), base64.StdEncoding.EncodeToString(a.Data))
		}
	}
	// the rapid fail file, if any, replays the shrunk case:  check <ID> --replay <this file>
	if m, _ := filepath.Glob("testdata/rapid/*/*.fail"); 0 < len(m) {
		sort.Strings(m)
		for _, fn := range m {
			if b, err := os.ReadFile(fn); err == nil {
				fmt.Fprintf(&sb, "\nrapid-failfile %s (base64):\n%s\n", filepath.Base(fn), base64.StdEncoding.EncodeToString(b))
			}
			os.Remove(fn)
		}
	}
	if err := os.WriteFile(path, []byte(sb.String()), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS-ERROR:", err)
	}
	c.mu.Lock()
	if 3000 < len(msg) {
		msg = msg[:3000]
	}
	c.res.Violations = append(c.res.Violations, violation{name, msg, path})
	c.mu.Unlock()
}

// bad records a harness error (never a violation).
func (c *Ctx) bad(format string, args ...any) {
	c.mu.Lock()
	c.res.Errors = append(c.res.Errors, fmt.Sprintf(format, args...))
	c.mu.Unlock()
}

func (k *Case) failf(format string, args ...any) {
	k.Helper()
	msg := fmt.Sprintf(format, args...)
	k.failed = msg
	k.Fatalf("%s", msg)
}

// class labels the case for the distribution report.
func (k *Case) class(format string, args ...any) {
	if len(args) == 0 {
		k.classes[format] = true
	} else {
		k.classes[fmt.Sprintf(format, args...)] = true
	}
}

func (k *Case) classIf(cond bool, name string) {
	if cond {
		k.classes[name] = true
	}
}

// nontrivial counts the case as non-trivial, distinct by key, and keeps a few samples.
func (k *Case) nontrivial(key []byte, sample func() string) {
	h := fnv.New64a()
	h.Write([]byte(k.c.name))
	h.Write(key)
	c := k.c
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.res.Violations != nil {
		return
	}
	v := h.Sum64()
	if !c.hashes[v] {
		c.hashes[v] = true
		c.perChk[c.name]++
		// samples from early, middle and late cases of each sub-check
		if n := c.perChk[c.name]; n == 3 || n == 40 || n == 400 {
			s := sample()
			if 600 < len(s) {
				s = s[:600] + "..."
			}
			c.res.Samples = append(c.res.Samples, c.name+": "+s)
		}
	}
}

func (k *Case) artifact(name string, b []byte) {
	k.arts = append(k.arts, artifact{name, append([]byte(nil), b...)})
}

func (k *Case) note(format string, args ...any) {
	k.notes = append(k.notes, fmt.Sprintf(format, args...))
}

// ---- guarded calls: panics, endless loops and runaway memory are violations ----

type guardState struct {
	k     *Case
	what  string
	start time.Time
	cpu   time.Duration
}

var guardMu sync.Mutex
var guardCur *guardState

func cpuTime() time.Duration {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

const hangCPU = 40 * time.Second
const memLimit = 6 << 30

// guard calls f, which must only run code under test; a panic fails the case.
func (k *Case) guard(what string, f func()) {
	k.Helper()
	if msg := k.try(what, f); msg != "" {
		k.failf("%s: %s", what, msg)
	}
}

// try is guard without failing: it returns the panic message and stack, or "".
func (k *Case) try(what string, f func()) (msg string) {
	if os.Getenv("VERIF_CURFILE") != "" {
		k.saveCurrent(what)
	}
	guardMu.Lock()
	guardCur = &guardState{k, what, time.Now(), cpuTime()}
	guardMu.Unlock()
	defer func() {
		guardMu.Lock()
		guardCur = nil
		guardMu.Unlock()
		if r := recover(); r != nil {
			if strings.HasPrefix(reflect.TypeOf(r).String(), "rapid.") {
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v at %s", r, topFrames())
		}
	}()
	f()
	return ""
}

// topFrames lists the innermost frames of the panicking stack that lie in the code under test.
func topFrames() string {
	pcs := make([]uintptr, 64)
	n := runtime.Callers(2, pcs)
	fr := runtime.CallersFrames(pcs[:n])
	var out []string
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "tdewolff/") {
			out = append(out, fmt.Sprintf("%s (%s:%d)", filepath.Base(f.Function), filepath.Base(f.File), f.Line))
			if len(out) == 4 {
				break
			}
		}
		if !more {
			break
		}
	}
	return strings.Join(out, " < ")
}

func (k *Case) saveCurrent(what string) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%-250.250s\n", fmt.Sprintf("property %s, check %s: %s", k.c.id, k.c.name, what))
	if k.saved == 1+len(k.arts) { // only the first line changes
		if f, err := os.OpenFile(os.Getenv("VERIF_CURFILE"), os.O_WRONLY, 0); err == nil {
			f.WriteAt([]byte(sb.String()), 0)
			f.Close()
			return
		}
	}
	k.saved = 1 + len(k.arts)
	for _, a := range k.arts {
		fmt.Fprintf(&sb, "artifact %s (%d bytes, base64):\n%s\n", a.Name, len(a.Data), base64.StdEncoding.EncodeToString(a.Data))
	}
	os.WriteFile(os.Getenv("VERIF_CURFILE"), []byte(sb.String()), 0o644)
}

func heapBytes() uint64 {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func allocBytes() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	return s[0].Value.Uint64()
}

func (c *Ctx) watchdog() {
	for {
		time.Sleep(100 * time.Millisecond)
		guardMu.Lock()
		g := guardCur
		guardMu.Unlock()
		if g == nil {
			continue
		}
		msg := ""
		if hangCPU < time.Since(g.start) && hangCPU < cpuTime()-g.cpu {
			msg = fmt.Sprintf("%s: still running after %v of CPU time", g.what, hangCPU)
		} else if memLimit < heapBytes() {
			msg = fmt.Sprintf("%s: more than %d bytes of live memory", g.what, uint64(memLimit))
		}
		if msg != "" {
			guardMu.Lock()
			same := guardCur == g
			guardMu.Unlock()
			if !same {
				continue
			}
			c.record(c.name, msg, g.k)
			c.flush(true)
			os.Exit(1)
		}
	}
}

// known reports a listed finding that still fails on this tree.
func (c *Ctx) known(key string) {
	c.mu.Lock()
	c.res.Known = append(c.res.Known, key)
	c.mu.Unlock()
}

func mustJSON(v any) string {
	b, _ := json.Marshal(v)
	return string(b)
}
