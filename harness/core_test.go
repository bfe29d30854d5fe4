// Package harness holds the executable properties of oarkflow/permission: a
// generator (rapid) and an oracle per property, over the public API only.
package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/bits"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"
	"unicode/utf8"

	v1 "github.com/oarkflow/permission/v1"
	"pgregory.net/rapid"
)

// Ctx collects what one evaluation saw; the oracle reports through it.
type Ctx struct {
	T          *testing.T
	labels     map[string]struct{}
	nontrivial bool
	Queries    int
	start      time.Time
	yield      func() // C24: lets another instance have its turn
}

// Over: the case has taken so long that the rest of it is left out.
func (c *Ctx) Over() bool {
	if !c.start.IsZero() && time.Since(c.start) > 6*time.Second {
		c.Label("cut short: slow")
		return true
	}
	return false
}

func (c *Ctx) Yield() {
	if c.yield != nil {
		c.yield()
	}
}

// Label classifies the case (counted once per case).
func (c *Ctx) Label(format string, args ...any) {
	if len(args) > 0 {
		format = fmt.Sprintf(format, args...)
	}
	c.labels[format] = struct{}{}
}

// NonTrivial marks the case as non-trivial by the property's stated rule.
func (c *Ctx) NonTrivial() { c.nontrivial = true }

// Prop is one property: cases are JSON values, drawn by gen and judged by eval.
type Prop struct {
	id     string
	rule   string
	repeat int // evaluations per case: iteration order is random
	gen    func(t *rapid.T) any
	decode func([]byte) (any, error)
	eval   func(c any, ctx *Ctx) error
}

var props = map[string][]*Prop{}

// Register adds a check for property id. A property can have several (parts).
func Register[C any](id, rule string, repeat int, gen func(t *rapid.T) C, eval func(c C, ctx *Ctx) error) struct{} {
	p := &Prop{
		id: id, rule: rule, repeat: repeat,
		gen: func(t *rapid.T) any { return gen(t) },
		decode: func(b []byte) (any, error) {
			var c C
			err := json.Unmarshal(b, &c)
			if strings.Contains(string(b), rawFF) || strings.Contains(string(b), rawC3) {
				rawBytes(reflect.ValueOf(&c).Elem())
			}
			return c, err
		},
		eval: func(c any, ctx *Ctx) error { return eval(c.(C), ctx) },
	}
	props[id] = append(props[id], p)
	return struct{}{}
}

// lossy: v holds a text that JSON has no place for.
func lossy(v reflect.Value) bool {
	switch v.Kind() {
	case reflect.String:
		return !utf8.ValidString(v.String())
	case reflect.Pointer, reflect.Interface:
		return !v.IsNil() && lossy(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if lossy(v.Field(i)) {
				return true
			}
		}
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return false
		}
		for i := 0; i < v.Len(); i++ {
			if lossy(v.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			if lossy(k) || lossy(v.MapIndex(k)) {
				return true
			}
		}
	}
	return false
}

const lossyMark = "\ufffd" // what JSON has in place of such bytes

// Bytes that are not UTF-8 have no place in JSON: these stand for them.
const (
	rawFF = "\ufffe"
	rawC3 = "\U0001fffe"
)

var rawReplacer = strings.NewReplacer(rawFF, "\xff", rawC3, "\xc3")

// rawBytes puts the bytes in their places, in every text below v.
func rawBytes(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		if v.CanSet() {
			v.SetString(rawReplacer.Replace(v.String()))
		}
	case reflect.Pointer, reflect.Interface:
		if v.IsNil() {
			return
		}
		if v.Kind() == reflect.Interface {
			if s, ok := v.Interface().(string); ok {
				v.Set(reflect.ValueOf(rawReplacer.Replace(s)))
			}
			if k := v.Elem().Kind(); k != reflect.Pointer && k != reflect.Slice && k != reflect.Map {
				return
			}
		}
		rawBytes(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				rawBytes(v.Field(i))
			}
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			rawBytes(v.Index(i))
		}
	case reflect.Map:
		old := map[any]reflect.Value{}
		for _, k := range v.MapKeys() {
			old[k.Interface()] = v.MapIndex(k)
			v.SetMapIndex(k, reflect.Value{})
		}
		for k, x := range old {
			nk, nx := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
			nk.Set(reflect.ValueOf(k))
			nx.Set(x)
			rawBytes(nk)
			rawBytes(nx)
			v.SetMapIndex(nk, nx)
		}
	}
}

type stats struct {
	Evaluations int            `json:"evaluations"`
	Queries     int            `json:"oracle_comparisons"`
	NonTrivial  int            `json:"nontrivial"`
	Labels      map[string]int `json:"labels"`
	Samples     []sample       `json:"samples"`
	Rule        string         `json:"rule"`
	MaxBytes    int            `json:"max_case_bytes"`
	SumBytes    int            `json:"sum_case_bytes"`
	MaxMs       int            `json:"max_case_ms"`
}

type sample struct {
	Case   json.RawMessage `json:"case"`
	Labels []string        `json:"labels"`
}

type failure struct {
	Property string          `json:"property"`
	Part     int             `json:"part"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func envInt(k string, def int) int {
	n, err := strconv.Atoi(env(k, strconv.Itoa(def)))
	if err != nil {
		panic(err)
	}
	return n
}

var (
	outDir    = env("VP_OUT", "")
	caseStart atomic.Int64 // unix nanoseconds, 0 when idle
)

// The current case is on disk while it is evaluated, so that a crash of the
// process (fatal error, data race, hang) leaves its input behind.
type currentFile struct {
	f *os.File
}

func (c *currentFile) write(b []byte) {
	if c.f == nil {
		return
	}
	_ = c.f.Truncate(0)
	_, _ = c.f.WriteAt(b, 0)
}

const (
	exitHang   = 70
	exitMemory = 71
)

func watchdog() {
	limit := time.Duration(envInt("VP_CASE_SECONDS", 40)) * time.Second
	maxHeap := uint64(envInt("VP_HEAP_MB", 2500)) << 20
	go func() {
		for {
			time.Sleep(100 * time.Millisecond)
			var ms runtime.MemStats
			if s := caseStart.Load(); s != 0 {
				if time.Since(time.Unix(0, s)) > limit/4 && deadlocked() {
					time.Sleep(time.Second)
					if caseStart.Load() == s && deadlocked() {
						buf := make([]byte, 1<<18)
						n := runtime.Stack(buf, true)
						fmt.Printf("VP-DEADLOCK: every thread in the library waits for a lock\n%s\n", buf[:n])
						os.Exit(exitHang)
					}
				}
				if time.Since(time.Unix(0, s)) > limit {
					buf := make([]byte, 1<<18)
					n := runtime.Stack(buf, true)
					fmt.Printf("VP-HANG: a case ran for over %v\n%s\n", limit, buf[:n])
					os.Exit(exitHang)
				}
				if time.Since(time.Unix(0, s)) > 300*time.Millisecond {
					runtime.ReadMemStats(&ms)
					if ms.HeapAlloc > maxHeap {
						fmt.Printf("VP-MEMORY: a case uses over %d MB of heap\n", maxHeap>>20)
						os.Exit(exitMemory)
					}
				}
			}
		}
	}()
}

// deadlocked tells whether some goroutines are in the library and all of them
// wait for a lock. Goroutine states are a snapshot of one instant, and a lock
// that was released has made one of its waiters runnable, so the speed of the
// machine does not matter.
func deadlocked() bool {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	if n == len(buf) {
		return false // incomplete
	}
	waiting := 0
	for _, gr := range strings.Split(string(buf[:n]), "\n\n") {
		if !strings.Contains(gr, "\ngithub.com/oarkflow/permission") {
			continue
		}
		_, state, _ := strings.Cut(gr, "[")
		state, _, _ = strings.Cut(state, "]")
		state, _, _ = strings.Cut(state, ",")
		if !strings.HasPrefix(state, "sync.Mutex.") && !strings.HasPrefix(state, "sync.RWMutex.") && state != "semacquire" {
			return false
		}
		waiting++
	}
	return waiting > 0
}

// evalOnce runs the oracle on one case; a panic of the code under test is a failure.
func (p *Prop) evalOnce(c any, ctx *Ctx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return p.eval(c, ctx)
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	var out []string
	for i, l := range lines {
		if strings.Contains(l, "oarkflow/permission") || (i > 0 && strings.Contains(lines[i-1], "oarkflow/permission")) {
			out = append(out, l)
		}
		if len(out) > 16 {
			break
		}
	}
	return strings.Join(out, "\n")
}

func (p *Prop) evalAll(t *testing.T, c any, n int, st *stats) (ctx *Ctx, err error) {
	ctx = &Ctx{T: t, labels: map[string]struct{}{}, start: time.Now()}
	caseStart.Store(time.Now().UnixNano())
	defer caseStart.Store(0)
	for i := 0; i < n; i++ {
		if err = p.evalOnce(c, ctx); err != nil {
			return
		}
	}
	return
}

func TestMain(m *testing.M) {
	flag.Parse()
	debug.SetMaxStack(200 << 20)
	watchdog()
	os.Exit(m.Run())
}

// TestProp searches: VP_PROP, VP_SEED, VP_CHECKS, VP_OUT.
func TestProp(t *testing.T) {
	id := os.Getenv("VP_PROP")
	if id == "" {
		t.Skip("VP_PROP not set")
	}
	parts := props[id]
	if len(parts) == 0 {
		t.Fatalf("no property %s", id)
	}
	part := envInt("VP_PART", 0)
	p := parts[part]
	seed := uint64(envInt("VP_SEED", 1))
	if seed == 0 {
		seed = 1 << 40
	}
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.checks", strconv.Itoa(envInt("VP_CHECKS", 100)))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", env("VP_SHRINK", "6s"))

	st := &stats{Labels: map[string]int{}, Rule: p.rule}
	seen := map[uint64]struct{}{}
	cur := &currentFile{}
	if outDir != "" {
		f, err := os.Create(filepath.Join(outDir, "current.json"))
		if err != nil {
			t.Fatal(err)
		}
		cur.f = f
	}
	best := -1
	failing := false
	var mu sync.Mutex
	defer func() {
		if outDir == "" {
			fmt.Printf("%+v\n", *st)
			return
		}
		b, err := json.Marshal(st)
		if err != nil {
			t.Error(err)
			return
		}
		_ = os.WriteFile(filepath.Join(outDir, "stats.json"), b, 0o644)
		hb := make([]byte, 0, 8*len(seen))
		for h := range seen {
			hb = binary.LittleEndian.AppendUint64(hb, h)
		}
		_ = os.WriteFile(filepath.Join(outDir, "hashes.bin"), hb, 0o644)
	}()
	deadline := time.Unix(int64(envInt("VP_DEADLINE", 1<<40)), 0)
	rapid.Check(t, func(rt *rapid.T) {
		if !failing && time.Now().After(deadline) {
			return // out of time: what ran, ran; the rest is not counted
		}
		c := p.gen(rt)
		b, err := json.Marshal(c)
		if err != nil {
			panic(err)
		}
		if bytes.Contains(b, []byte(lossyMark)) && lossy(reflect.ValueOf(c)) {
			return // not what was drawn: texts in it may have become one
		}
		// Judge what the replay file will hold, not the in-memory twin.
		dc, err := p.decode(b)
		if err != nil {
			panic(err)
		}
		mu.Lock()
		defer mu.Unlock()
		full, _ := json.Marshal(failure{Property: id, Part: part, Message: "(the process ended while this case ran)", Case: b})
		cur.write(full)
		began := time.Now()
		ctx, err := p.evalAll(t, dc, p.repeat, st)
		if !failing {
			st.MaxMs = max(st.MaxMs, int(time.Since(began).Milliseconds()))
			st.Evaluations++
			st.Queries += ctx.Queries
			st.SumBytes += len(b)
			st.MaxBytes = max(st.MaxBytes, len(b))
			for l := range ctx.labels {
				st.Labels[l]++
			}
			if ctx.nontrivial {
				st.NonTrivial++
				h := fnv.New64a()
				_, _ = h.Write(b)
				k := h.Sum64()
				if _, dup := seen[k]; !dup {
					seen[k] = struct{}{}
					if n := len(seen); n <= 2 || (n&(n-1) == 0 && n > 16) {
						if len(b) < 4000 && len(st.Samples) < 8 {
							st.Samples = append(st.Samples, sample{Case: b, Labels: sortedKeys(ctx.labels)})
						}
					}
				}
			}
		}
		if err != nil {
			failing = true
			fmt.Printf("VP-FAIL %s\n", strings.SplitN(err.Error(), "\n", 2)[0])
			if best < 0 || len(b) < best {
				best = len(b)
				fb, _ := json.MarshalIndent(failure{Property: id, Part: part, Message: err.Error(), Case: b}, "", " ")
				if outDir != "" {
					_ = os.WriteFile(filepath.Join(outDir, "failure.json"), fb, 0o644)
				}
			}
			rt.Fatalf("%v", err)
		}
	})
	cur.write([]byte("{}"))
}

// TestReplay re-judges saved cases: VP_REPLAY=file or directory, VP_REPEAT=n.
func TestReplay(t *testing.T) {
	path := os.Getenv("VP_REPLAY")
	if path == "" {
		t.Skip("VP_REPLAY not set")
	}
	files := []string{path}
	if st, err := os.Stat(path); err == nil && st.IsDir() {
		files, _ = filepath.Glob(filepath.Join(path, "*.json"))
	}
	for _, file := range files {
		b, err := os.ReadFile(file)
		if err != nil {
			t.Fatal(err)
		}
		var f failure
		if err := json.Unmarshal(b, &f); err != nil {
			t.Fatal(err)
		}
		parts := props[f.Property]
		if f.Part >= len(parts) {
			t.Fatalf("no property %s part %d", f.Property, f.Part)
		}
		p := parts[f.Part]
		c, err := p.decode(f.Case)
		if err != nil {
			t.Fatal(err)
		}
		if outDir != "" {
			_ = os.WriteFile(filepath.Join(outDir, "current.json"), b, 0o644)
		}
		for i := 0; i < envInt("VP_REPEAT", 200); i++ {
			if _, err := p.evalAll(t, c, 1, nil); err != nil {
				f.Message = err.Error()
				if outDir != "" {
					fb, _ := json.MarshalIndent(f, "", " ")
					_ = os.WriteFile(filepath.Join(outDir, "failure.json"), fb, 0o644)
				}
				t.Fatalf("VP-FAIL (%s, evaluation %d): %v", file, i+1, err)
			}
		}
	}
}

// TestParts lists how many parts each property has.
func TestParts(t *testing.T) {
	for _, id := range sortedKeys(props) {
		fmt.Printf("VP-PARTS %s %d\n", id, len(props[id]))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- drawing helpers: every random choice goes through rapid ----

type G struct{ t *rapid.T }

var bit = rapid.Bool() // rapid's integer generators favour small values; these draws are uniform

func (g G) bits(n int) (u int) {
	for i := 0; i < n; i++ {
		u <<= 1
		if bit.Draw(g.t, "") {
			u |= 1
		}
	}
	return u
}

// Int draws from [lo, hi], uniformly, and shrinks to lo.
func (g G) Int(lo, hi int) int {
	if lo >= hi {
		return lo
	}
	n := hi - lo + 1
	k := bits.Len(uint(n - 1))
	u := g.bits(k)
	for try := 0; u >= n && try < 3; try++ {
		u = g.bits(k)
	}
	return lo + u%n
}

// P is true in about pc of 100 draws, and shrinks to false.
func (g G) P(pc int) bool {
	return g.bits(8)*100 >= (100-pc)*256
}

// hints are texts and numbers that the code under test has gained since the
// properties were written (VP_DICT): ids, patterns and sizes worth trying.
var hints = func() (h struct {
	Words []string
	Sizes []int
	pool  []string
}) {
	b, err := os.ReadFile(os.Getenv("VP_DICT"))
	if err != nil || json.Unmarshal(b, &h) != nil {
		return
	}
	for _, w := range h.Words {
		h.pool = append(h.pool, w, w+"a", "a"+w, "a"+w+"b", w+w, strings.ToUpper(w))
	}
	for _, n := range h.Sizes {
		if n <= 5000 {
			h.pool = append(h.pool, strings.Repeat("x", n-1), strings.Repeat("x", n), strings.Repeat("x", n+1))
		}
	}
	return
}()

// hinted draws a size around one of those numbers.
func (g G) hinted(lo, hi int) (int, bool) {
	var fit []int
	for _, n := range hints.Sizes {
		if lo <= n && n <= hi {
			fit = append(fit, n)
		}
	}
	if len(fit) == 0 || !g.P(50) {
		return 0, false
	}
	return Pick(g, fit) + Pick(g, []int{1, 1, 0, -1, 2}), true
}

// Big draws a size beyond what small fixed buffers hold.
func (g G) Big() int {
	if n, ok := g.hinted(3, 300); ok {
		return n
	}
	return Pick(g, []int{17, 33, 40, 65, 70, 101, 129, 140, 257}) + g.Int(0, 3)
}

// Huge draws a size beyond larger limits.
func (g G) Huge() int {
	if n, ok := g.hinted(200, 2500); ok {
		return n
	}
	return Pick(g, []int{300, 520, 1030, 1030, 1100})
}

func Pick[T any](g G, xs []T) T {
	return xs[g.Int(0, len(xs)-1)]
}

// Some draws a sublist of distinct positions, in order, of about pc percent.
func Some[T any](g G, xs []T, pc int) []T {
	var out []T
	for _, x := range xs {
		if g.P(pc) {
			out = append(out, x)
		}
	}
	return out
}

// Perm draws a permutation of 0..n-1.
// join makes one call of several, where a call takes any number of arguments:
// steps from the given one on that have the same key, unless it is empty. The
// call takes the place of the first or the last of them; some are made apart
// as well.
func join[O any](g G, ops []O, from int, key func(O) string, merge func(into *O, o O)) []O {
	if !g.P(35) {
		return ops
	}
	last := g.P(50)
	rest := slices.Clone(ops[from:])
	if last {
		slices.Reverse(rest)
	}
	var out []O
	at := map[string]int{}
	for _, o := range rest {
		k := key(o)
		if i, ok := at[k]; ok && k != "" && g.P(70) {
			if n := o; last {
				merge(&n, out[i])
				out[i] = n
			} else {
				merge(&out[i], o)
			}
			if !g.P(20) {
				continue
			}
		} else {
			at[k] = len(out)
		}
		out = append(out, o)
	}
	if last {
		slices.Reverse(out)
	}
	return append(ops[:from:from], out...)
}

func (g G) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := g.Int(0, i)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// late moves a few steps of a history to its end, and has everything asked
// before each of them (the step "probe").
func late[O any](g G, ops []O, kind func(O) string, probe O) []O {
	if !g.P(40) {
		return ops
	}
	byKind := map[string][]int{}
	var kinds []string
	for i, o := range ops {
		switch k := kind(o); k {
		case "ask", "churn", "spin", "probe":
		default:
			if byKind[k] == nil {
				kinds = append(kinds, k)
			}
			byKind[k] = append(byKind[k], i)
		}
	}
	if len(kinds) == 0 {
		return ops
	}
	moved := map[int]bool{}
	var order []int
	for k := g.Int(1, 3); k > 0; k-- {
		i := Pick(g, byKind[Pick(g, kinds)])
		if !moved[i] {
			moved[i] = true
			order = append(order, i)
		}
	}
	var out []O
	for i, o := range ops {
		if !moved[i] {
			out = append(out, o)
		}
	}
	for _, i := range order {
		out = append(out, probe, ops[i])
	}
	return out
}

// Ids are chosen to be easy to confuse: prefixes of each other, separators of
// every kind the code base uses or might use, case variants, words that print
// like nil and booleans, pattern characters, unicode, long ones.
var oddIDs = []string{
	"a", "b", "ab", "a_b", "a_", "_a", "_", "__", "b_", "a/b", "a:b", ":a", "a|b", "a b", " a", "a ", " ", "A", "aa",
	"*", "a*", "nil", "<nil>", "null", "true", "false", "0", "1", "-1", "a.b", "a-b", "a,b", "a;b", "é", "日本", "a\x00b",
	"\"", "\\", "%s", "{}", "a\tb", "a\nb", "default", "admin", "root", "tenant", "E29", strings.Repeat("x", 70), strings.Repeat("x", 71),
	"A_", "a__b", "b_a", "ba", "aaa", "ß", "a\u0301", "α", "Z", "z", "10", "2", "global", "active",
	"a" + rawFF, "a" + rawC3, rawFF, "a\ufffd", "a" + rawFF + rawFF,
}

var separators = []string{"", "_", "/", ":", "|", " ", "-", "", "_", "/", ":", "|", "/", ":", "|", " ", "-", ".", ",", "\x00", "->", "#", "::", ";", "\n"}

// twins are pairs of texts that hash alike: FNV-1 and FNV-1a of 64 and 32
// bits, CRC-32, Adler-32, the polynomial hash with factor 31, and sums.
var twins = [][2]string{
	{"dRFozW7DO3C", "5NSB9rpYfQC"}, {"dRFozW7DO3C", "5NSB9rpYfQC"}, {"n_g86r38-fA", "hhtE3Acna5A"}, {"n_g86r38-fA", "hhtE3Acna5A"},
	{"146a53", "1bd81b"}, {"1c5v", "252ak"}, {"7b8eac", "2004920"}, {"180y", "504y"}, {"Aa", "BB"}, {"ad", "bc"},
}

// quotedTwins hash alike after a quotation mark.
var quotedTwins = [][2]string{{"FWYjNMU-xmE", "ZZBYeVx4-lF"}, {"DTU5b9IFzWL", "f6Y-ZGWuRKA"}, {"282fcq", "6c280q"}, {"455e9q", "f6a16q"}}

// Confusable draws another principal and tenant which, strung together with a
// separator, read like these two.
func (g G) Confusable(p, t string) (string, string, bool) {
	var all [][2]string
	for _, s := range separators[5:] {
		if s == "" && len(all) > 0 {
			continue
		}
		for i := 1; i+len(s) < len(t); i++ {
			if runeAt(t, i) == i && strings.HasPrefix(t[i:], s) {
				all = append(all, [2]string{p + s + t[:i], t[i+len(s):]})
			}
		}
		for i := 1; i+len(s) < len(p); i++ {
			if runeAt(p, i) == i && strings.HasPrefix(p[i:], s) {
				all = append(all, [2]string{p[:i], p[i+len(s):] + s + t})
			}
		}
	}
	if len(all) == 0 {
		return "", "", false
	}
	x := Pick(g, all)
	return x[0], x[1], x[0] != p
}

// OddPool draws where ids come from: nil (plain ids), oddIDs, or a few words
// and what joining them with one separator gives, so that the ids of different
// kinds, strung together, read alike.
func (g G) OddPool(pc int) []string {
	if len(hints.pool) > 0 && g.P(35) {
		return append([]string{"a", "b", "ab"}, hints.pool...)
	}
	if !g.P(pc) {
		return nil
	}
	if g.P(12) {
		x, y := Pick(g, twins), Pick(g, twins)
		return []string{x[0], x[1], x[0], x[1], y[0], y[1]}
	}
	if g.P(55) {
		return oddIDs
	}
	s := Pick(g, separators)
	return []string{"a", "b", "a" + s + "b", "b" + s + "a", "a" + s + "a", "b" + s + "b", "a" + s + "b" + s + "a", "b" + s + "a" + s + "b"}
}

// Word draws one of oddIDs.
func (g G) Word() string {
	if len(hints.pool) > 0 && g.P(25) {
		return Pick(g, hints.pool)
	}
	return Pick(g, oddIDs)
}

// IDs draws n distinct ids, from the pool or (nil) with the given prefix.
func (g G) IDs(n int, prefix string, pool []string) []string {
	out := make([]string, 0, n)
	seen := map[string]bool{}
	for i := 0; len(out) < n; i++ {
		id := prefix + strconv.Itoa(i)
		if pool != nil {
			id = Pick(g, pool)
			if seen[id] {
				id = Pick(g, pool)
			}
			if seen[id] {
				id = id + "_" + strconv.Itoa(i)
			}
		}
		if seen[id] {
			id = prefix + "'" + strconv.Itoa(i)
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		out = append(out, id)
	}
	return out
}

func few(pool []string, yes bool) []string {
	if yes {
		return pool
	}
	return nil
}

// ---- resource patterns ----

var (
	litAtoms = []string{"a", "b", "ab", "/", "/", " ", "x", "ü", "-", ".", "aa", "1", "A"}
	patAtoms = []string{"a", "b", "ab", "/", "/", " ", "x", "*", "*", ":p", ":", ":id", "/:p", "/*", "**", "ü", ":p/", ":a:b", "aa", "1", "A"}
	verbs    = []string{"GET", "POST", "PUT", "DELETE", "*", "get", "", ":act", "G*"}
	routes   = []string{
		"/a", "/a/b", "/a/:x", "/a/:x/b", "/a/*", "*", "/", "/:x", "/a/:x/:y", "/a/*/b", "/:x/b", "resourceA", "resourceB",
		"/a/b/*", "*/b", ":x", "a", "b", "/a/:x/*", "/a/:x/b/:y/c", "/a-:x", "/a.b", "/a//b", "",
	}
)

// Characters that some other pattern language, path syntax or text format
// gives a meaning, and that this one does not.
var oddChars = []string{
	"\n", "\r", "\t", "\x00", "\x7f", "\v", ".", "..", "?", "[", "]", "[a]", "\\", "%", "%2F", "+", "#", "&", "=", "(", ")", "|", "^", "$", "{", "}", "{a}",
	",", ";", "!", "~", "@", "'", "\"", "`", "<", ">", "_", "-", "0", "9", "Z", "\u2028", "\u00a0", "\u200b", "é", "e\u0301", "日", "\U0001F600", rawFF, rawC3, "\ufffd",
}

// OddChar draws one of those or any byte.
func (g G) OddChar() string {
	if g.P(80) {
		return Pick(g, oddChars)
	}
	if n := g.Int(0, 255); n < 128 {
		return string(rune(n))
	}
	return rawFF
}

func (g G) atoms(pool []string, maxN int) string {
	n := g.Int(0, maxN)
	odd := n > 0 && g.P(20)
	var b strings.Builder
	for i := 0; i < n; i++ {
		if len(hints.pool) > 0 && g.P(20) {
			b.WriteString(Pick(g, hints.pool))
			continue
		}
		if odd && g.P(40) {
			b.WriteString(g.OddChar())
			continue
		}
		b.WriteString(Pick(g, pool))
	}
	return b.String()
}

// Resource and action of a permission.
func (g G) PermResource() string {
	if len(hints.pool) > 0 && g.P(15) {
		return Pick(g, hints.pool)
	}
	if g.P(75) {
		return Pick(g, routes)
	}
	if g.P(10) {
		return Pick(g, twins)[g.Int(0, 1)]
	}
	return g.atoms(patAtoms, 5)
}

func (g G) PermAction() string {
	if len(hints.pool) > 0 && g.P(15) {
		return Pick(g, hints.pool)
	}
	if g.P(90) {
		return Pick(g, verbs)
	}
	return g.atoms(patAtoms, 3)
}

// Instance draws a value that the pattern matches (most of the time).
func (g G) Instance(pattern string) string {
	var b strings.Builder
	odd := g.P(15)
	fill := func(choices []string) {
		s := Pick(g, choices)
		if len(hints.pool) > 0 && g.P(20) {
			s = Pick(g, hints.pool)
		}
		if odd {
			i := runeAt(s, g.Int(0, len(s)))
			s = s[:i] + g.OddChar() + s[i:]
		}
		b.WriteString(s)
	}
	for i := 0; i < len(pattern); {
		switch pattern[i] {
		case '*':
			fill([]string{"", "a", "x/y", "b", "/", "zz top", "a/b/c"})
			i++
		case ':':
			fill([]string{"1", "a", "xyz", "b-b", ":p", "x y"})
			i++
			for i < len(pattern) && pattern[i] != '/' && pattern[i] != ' ' {
				i++
			}
		default:
			b.WriteByte(pattern[i])
			i++
		}
	}
	return b.String()
}

// runeAt is i, or where the character of s begins that i would cut apart: the
// bytes of half a character have no place in JSON, and two texts that differ
// in them only would be one in the replay file.
func runeAt(s string, i int) int {
	for i > 0 && i < len(s) && !utf8.RuneStart(s[i]) {
		i--
	}
	return i
}

// Near changes a value a little.
func (g G) Near(s string) string {
	if len(hints.pool) > 0 && g.P(20) {
		i := runeAt(s, g.Int(0, len(s)))
		return s[:i] + Pick(g, hints.pool) + s[i:]
	}
	for _, t := range twins {
		for i, x := range t {
			if strings.HasPrefix(s, x) {
				return t[1-i] + s[len(x):]
			}
		}
	}
	switch g.Int(0, 6) {
	case 0:
		return s
	case 6:
		i := runeAt(s, g.Int(0, len(s)))
		return s[:i] + g.OddChar() + s[i:]
	case 1:
		return s + Pick(g, []string{"/", "/x", "x", " ", "*"})
	case 2:
		if s == "" {
			return "x"
		}
		i := runeAt(s, g.Int(0, len(s)-1))
		_, n := utf8.DecodeRuneInString(s[i:])
		return s[:i] + s[i+n:]
	case 3:
		i := runeAt(s, g.Int(0, len(s)))
		return s[:i] + Pick(g, []string{"/", "x", " ", "a/b"}) + s[i:]
	case 4:
		return strings.ToUpper(s)
	default:
		return Pick(g, routes)
	}
}

// refMatch is the reference for resource patterns, by plain recursion on the
// grammar: '*' any run, ':name' a non-empty run without '/', the rest literal.
func refMatch(value, pattern string) bool {
	type key struct{ i, j int }
	memo := map[key]bool{}
	var m func(i, j int) bool
	m = func(i, j int) bool {
		if j == len(pattern) {
			return i == len(value)
		}
		k := key{i, j}
		if r, ok := memo[k]; ok {
			return r
		}
		memo[k] = false
		r := false
		switch pattern[j] {
		case '*':
			for e := i; e <= len(value) && !r; e++ {
				r = m(e, j+1)
			}
		case ':':
			end := j + 1
			for end < len(pattern) && pattern[end] != '/' && pattern[end] != ' ' {
				end++
			}
			for e := i; e < len(value) && value[e] != '/' && !r; e++ {
				r = m(e+1, end)
			}
		default:
			r = i < len(value) && value[i] == pattern[j] && m(i+1, j+1)
		}
		memo[k] = r
		return r
	}
	return m(0, 0)
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%+v", v)
	}
	if bytes.Contains(b, []byte(lossyMark)) { // bytes that are no text: tell them apart
		switch x := v.(type) {
		case string, []string, rRow, v1.TenantPrincipal:
			c := reflect.New(reflect.TypeOf(x)).Elem()
			c.Set(reflect.ValueOf(v))
			if l, ok := v.([]string); ok {
				c.Set(reflect.ValueOf(slices.Clone(l)))
			}
			rawMarks(c)
			b, _ = json.Marshal(c.Interface())
		}
	}
	return string(b)
}

// rawMarks is the way back from rawBytes.
func rawMarks(v reflect.Value) {
	switch v.Kind() {
	case reflect.String:
		var b strings.Builder
		for s := v.String(); s != ""; {
			r, n := utf8.DecodeRuneInString(s)
			switch {
			case r != utf8.RuneError || n != 1:
				b.WriteString(s[:n])
			case s[0] == 0xff:
				b.WriteString(rawFF)
			case s[0] == 0xc3:
				b.WriteString(rawC3)
			default:
				b.WriteByte(s[0])
			}
			s = s[n:]
		}
		v.SetString(b.String())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				rawMarks(v.Field(i))
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			rawMarks(v.Index(i))
		}
	}
}
