package harness

import (
	"fmt"
	"math"
	"reflect"
	"slices"
	"strings"
	"time"

	permission "github.com/oarkflow/permission"
	"github.com/oarkflow/permission/ds"
	"github.com/oarkflow/permission/trie"
	"github.com/oarkflow/permission/utils"
	v1 "github.com/oarkflow/permission/v1"
	v2 "github.com/oarkflow/permission/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C01

type matchCase struct {
	Value   []byte
	Pattern []byte
	Text    string // the same, readable
}

func genMatch(t *rapid.T) matchCase {
	g := G{t}
	var v, p string
	switch k := g.Int(0, 19); {
	case k == 19: // long runs of '*': a backtracking matcher would not come back
		n := g.Int(1, 30)
		p = strings.Repeat(Pick(g, []string{"a*", "*a", "*", ":x/", "*/"}), n) + g.atoms(patAtoms, 2)
		v = strings.Repeat(Pick(g, []string{"a", "a/", "/"}), g.Int(1, 100)) + g.atoms(litAtoms, 2)
	case k == 18 && g.P(20): // long ones
		seg := Pick(g, []string{"a", "/a", "ab/", "/:x", "a*", ":y/", "b "})
		n := Pick(g, []int{30, 60, 64, 100, 128, 200, 256, 300, 512, 700, 1024})
		p = g.atoms(patAtoms, 2) + strings.Repeat(seg, n/len(seg)+g.Int(0, 2)) + g.atoms(patAtoms, 2)
		v = g.Instance(p)
		if g.P(25) {
			v, p = p, Pick(g, []string{"*", ":x", "*:x", ":x/*", "*/:x"})+g.atoms(patAtoms, 2)
		}
		if g.P(40) {
			v = g.Near(v)
		}
	case k >= 14: // a permission and a request as the authorizers build them
		p = g.PermResource() + " " + g.PermAction()
		v = g.Instance(p)
		if g.P(50) {
			v = g.Near(v)
		}
	case k >= 12: // arbitrary bytes
		p = string(rapid.SliceOfN(rapid.SampledFrom([]byte("ab/: *\x00\xff\xc3\xbc")), 0, 12).Draw(t, "p"))
		v = string(rapid.SliceOfN(rapid.SampledFrom([]byte("ab/: *\x00\xff\xc3\xbc")), 0, 12).Draw(t, "v"))
	case k >= 9:
		p = g.atoms(patAtoms, 8)
		v = g.atoms(litAtoms, 8)
	case k >= 8:
		p = g.atoms(patAtoms, 8)
		v = p
	default:
		p = g.atoms(patAtoms, 8)
		v = g.Instance(p)
		if g.P(50) {
			v = g.Near(v)
		}
		if g.P(15) {
			v = g.Near(v)
		}
	}
	v, p = rawReplacer.Replace(v), rawReplacer.Replace(p)
	return matchCase{[]byte(v), []byte(p), fmt.Sprintf("%q ~ %q", v, p)}
}

var _ = Register("C01",
	"value/pattern pairs: patterns from atoms of '*', ':name', separators and literals, values instantiated from the pattern then mutated, arbitrary bytes, and long star runs; oracle: recursive definition of the pattern language, plus reflexivity and the literal case, also through the roles of the main package, v1 and v2; non-trivial: the pattern holds '*' or ':' and the value is not empty",
	1, genMatch, func(c matchCase, ctx *Ctx) error {
		v, p := string(c.Value), string(c.Pattern)
		got, want := utils.MatchResource(v, p), refMatch(v, p)
		ctx.Queries++
		if got != want {
			return fmt.Errorf("MatchResource(%q, %q) = %v, the pattern language says %v", v, p, got, want)
		}
		if !utils.MatchResource(p, p) {
			return fmt.Errorf("MatchResource(%q, %q) = false: a pattern matches itself", p, p)
		}
		if !utils.MatchResource(v, "*") {
			return fmt.Errorf("MatchResource(%q, \"*\") = false", v)
		}
		if !strings.ContainsAny(p, "*:") {
			if got != (v == p) {
				return fmt.Errorf("MatchResource(%q, %q) = %v for a literal pattern", v, p, got)
			}
			ctx.Label("literal pattern")
		}
		// the same through the roles of each package
		if pr, pa, ok := strings.Cut(p, " "); ok {
			r0, r1 := permission.NewRole("r"), v1.NewRole("r")
			if err := r0.AddPermission("g", permission.NewAttribute(pr, pa)); err != nil {
				return err
			}
			if err := r1.AddPermission("g", v1.NewAttribute(pr, pa)); err != nil {
				return err
			}
			ctx.Queries += 2
			if r0.Has("g", v) != want || r1.Has("g", v) != want {
				return fmt.Errorf("a role permitting %q: %q is %v, in v1 %v, the pattern language says %v", p, v, r0.Has("g", v), r1.Has("g", v), want)
			}
			if vr, va, ok := strings.Cut(v, " "); ok && v != " " {
				a := v2.NewAuthorizer()
				a.AddTenant(v2.NewTenant("t", "n"))
				a.AddRole(v2.NewRole("r")).AddPermission(v2.NewPermission("g", pr, pa))
				a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p", Tenant: "t", Role: "r"})
				ctx.Queries++
				if got := a.Authorize(v2.Request{Principal: "p", Tenant: "t", Resource: vr, Action: va}); got != want {
					return fmt.Errorf("v2 role permitting %q: %q is %v, the pattern language says %v", p, v, got, want)
				}
			}
		}
		ctx.Label("match=%v", want)
		if strings.Contains(p, "*") {
			ctx.Label("star")
			if i := strings.Index(p, "*"); i > 0 && i < len(p)-1 {
				ctx.Label("inner star, match=%v", want)
			}
		}
		if strings.Contains(p, ":") {
			ctx.Label("param, match=%v", want)
		}
		if len(v) > 60 {
			ctx.Label("long value")
		}
		if strings.ContainsAny(p, "*:") && v != "" {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C22: ds

// A program over persistent lists: step k makes list k+1 from earlier lists.
type dsStep struct {
	Kind string // "append", "concat", "empty"
	A, B int
	E    int
}

type dsCase struct{ Steps []dsStep }

func genDS(t *rapid.T) dsCase {
	g := G{t}
	n := g.Int(1, 14)
	if g.P(3) {
		n = g.Int(15, 80)
		if g.P(10) {
			n = g.Big()
		}
		if g.P(1) {
			n = g.Huge()
		}
	}
	var c dsCase
	for i := 0; i < n; i++ {
		s := dsStep{Kind: Pick(g, []string{"append", "append", "concat", "append", "concat", "empty"})}
		back := func() int {
			if g.P(70) {
				return max(0, i-g.Int(0, 2))
			}
			return g.Int(0, i)
		}
		s.A, s.B, s.E = back(), back(), g.Int(0, 99)
		c.Steps = append(c.Steps, s)
	}
	return c
}

var _ = Register("C22",
	"programs of append/concat/empty over earlier persistent lists; oracle: plain slices, every list re-read after every step and after the slices it returned were overwritten; non-trivial: a concat of two non-empty lists, one of them used again later",
	1, genDS, func(c dsCase, ctx *Ctx) error {
		real := []ds.Link[int]{ds.Empty[int]()}
		model := [][]int{{}}
		total := 0
		check := func(when string) error {
			for i := range real {
				got := real[i].AsSlice()
				ctx.Queries++
				if !slices.Equal(got, model[i]) {
					return fmt.Errorf("list %d %s is %v, want %v", i, when, got, model[i])
				}
				if real[i].IsEmpty() != (len(model[i]) == 0) {
					return fmt.Errorf("list %d %s: IsEmpty %v but holds %v", i, when, real[i].IsEmpty(), model[i])
				}
				// what AsSlice returned belongs to the caller
				got = append(got, -1, -2)
				for j := range got {
					got[j] = -7
				}
			}
			return nil
		}
		concat := 0
		for k, s := range c.Steps {
			if s.A < 0 || s.A >= len(real) || s.B < 0 || s.B >= len(real) {
				return nil
			}
			switch s.Kind {
			case "append":
				real = append(real, real[s.A].Append(s.E))
				model = append(model, append(slices.Clone(model[s.A]), s.E))
			case "concat":
				if total += len(model[s.A]) + len(model[s.B]); total > 20000 {
					return nil
				}
				real = append(real, real[s.A].Concat(real[s.B]))
				model = append(model, append(slices.Clone(model[s.A]), model[s.B]...))
				if len(model[s.A]) > 0 && len(model[s.B]) > 0 {
					concat++
				}
			default:
				real = append(real, ds.Empty[int]())
				model = append(model, []int{})
			}
			if len(c.Steps) <= 20 || k == len(c.Steps)-1 {
				if err := check(fmt.Sprintf("after step %d", k)); err != nil {
					return err
				}
			}
		}
		if err := check("read again"); err != nil {
			return err
		}
		if concat > 0 {
			ctx.Label("concat of non-empty lists")
		}
		if concat > 1 {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C23: set helpers

type rec struct {
	A string
	B string
	N int
}

type setCase struct {
	A, B  []rec
	Mixed []mixed
	Elem  mixed
}

// mixed is a comparable value of one of several dynamic types.
type mixed struct {
	T string `json:",omitempty"`
	S string `json:",omitempty"`
	N int    `json:",omitempty"`
}

type namedString string

func (m mixed) val() any {
	switch m.T {
	case "int":
		return m.N
	case "int64":
		return int64(m.N)
	case "bool":
		return m.N%2 == 0
	case "nil":
		return nil
	case "named":
		return namedString(m.S)
	case "stringer":
		return time.Duration(m.N)
	case "struct":
		return struct{ A, B any }{m.S, m.N}
	case "float":
		return float64(m.N)
	case "array":
		return [2]string{m.S, m.S}
	default:
		return m.S
	}
}

func genSets(t *rapid.T) setCase {
	g := G{t}
	str := func() string {
		if g.P(60) {
			return Pick(g, []string{"", "x", "y", "x|B:y", "y|N:1", "|", "x|", ":", "x\"", "0", "1", "x|B:", "y|B:"})
		}
		return g.Word()
	}
	recs := func() (out []rec) {
		n := g.Int(0, 6)
		if g.P(5) {
			n = g.Int(20, 60)
			if g.P(20) {
				n = g.Big()
			}
			if g.P(2) {
				n = g.Huge()
			}
		}
		for i := 0; i < n; i++ {
			out = append(out, rec{str(), str(), g.Int(0, 2)})
		}
		return
	}
	m := func() mixed {
		return mixed{Pick(g, []string{"string", "int", "int64", "bool", "nil", "string", "named", "stringer", "struct", "float", "array"}), Pick(g, []string{"", "0", "1", "true", "a", "nil"}), g.Int(0, 3)}
	}
	c := setCase{A: recs(), B: recs(), Elem: m()}
	if len(c.A) > 0 && g.P(70) {
		c.B = append(c.B, Pick(g, c.A))
	}
	if g.P(4) {
		x := Pick(g, append(quotedTwins, twins...))
		c.A = append(c.A, rec{x[0], x[0], 0})
		c.B = append(c.B, rec{x[1], x[1], 0})
	}
	n := g.Int(0, 10)
	if g.P(10) {
		n = g.Int(11, 60)
		if g.P(15) {
			n = g.Big()
		}
	}
	for i := 0; i < n; i++ {
		c.Mixed = append(c.Mixed, m())
	}
	return c
}

func recMap(r rec) map[string]string {
	m := map[string]string{"A": r.A, "B": r.B}
	if r.N == 1 {
		m["N|A"] = "1"
	}
	if r.N == 2 {
		delete(m, "B")
	}
	return m
}

type nested struct {
	Rec  rec
	List []string
	Map  map[string]string
	F    float64
	Yes  bool
}

type hidden struct {
	a string
	b string
	n int
}

func checkSetOps[T any](name string, a, b []T, ctx *Ctx) error {
	eq := func(x, y T) bool { return reflect.DeepEqual(x, y) }
	in := func(xs []T, y T) bool { return slices.ContainsFunc(xs, func(x T) bool { return eq(x, y) }) }
	inter := utils.Intersection(a, b)
	var want []T
	for _, y := range b {
		if in(a, y) {
			want = append(want, y)
		}
	}
	ctx.Queries += 2
	if len(inter) != len(want) || (len(want) > 0 && !reflect.DeepEqual(inter, want)) {
		return fmt.Errorf("%s: Intersection(%+v, %+v) = %+v, want %+v", name, a, b, inter, want)
	}
	union := utils.Union(a, b)
	want = slices.Clone(a)
	for _, y := range b {
		if !in(a, y) {
			want = append(want, y)
		}
	}
	if len(union) != len(want) || (len(want) > 0 && !reflect.DeepEqual(union, want)) {
		return fmt.Errorf("%s: Union(%+v, %+v) = %+v, want %+v", name, a, b, union, want)
	}
	for i, x := range a {
		for j, y := range b {
			if i > 3 || j > 3 {
				break
			}
			if (utils.Serialize(x) == utils.Serialize(y)) != eq(x, y) {
				return fmt.Errorf("%s: Serialize(%+v) and Serialize(%+v): %q, %q", name, x, y, utils.Serialize(x), utils.Serialize(y))
			}
		}
	}
	return nil
}

func conv[A, B any](xs []A, f func(A) B) []B {
	var out []B
	for _, x := range xs {
		out = append(out, f(x))
	}
	return out
}

var _ = Register("C23",
	"pairs of record lists (strings that look like the serialised form of each other), mixed-type lists; oracle: comparison by value; non-trivial: both lists non-empty and the intersection neither empty nor everything, or a mixed list with repetitions",
	2, genSets, func(c setCase, ctx *Ctx) error {
		if err := checkSetOps("struct", c.A, c.B, ctx); err != nil {
			return err
		}
		if err := checkSetOps("map", conv(c.A, recMap), conv(c.B, recMap), ctx); err != nil {
			return err
		}
		if err := checkSetOps("string", conv(c.A, func(r rec) string { return r.A }), conv(c.B, func(r rec) string { return r.B }), ctx); err != nil {
			return err
		}
		if err := checkSetOps("int", conv(c.A, func(r rec) int { return r.N }), conv(c.B, func(r rec) int { return r.N }), ctx); err != nil {
			return err
		}
		hid := func(r rec) hidden { return hidden{r.A, r.B, r.N} }
		if err := checkSetOps("struct with unexported fields", conv(c.A, hid), conv(c.B, hid), ctx); err != nil {
			return err
		}
		intKeys := func(r rec) map[int]string { return map[int]string{r.N: r.A, r.N + 5: r.B, r.N + 10: "x", 7: "q"} }
		if err := checkSetOps("map with int keys", conv(c.A, intKeys), conv(c.B, intKeys), ctx); err != nil {
			return err
		}
		whole := c
		c.A, c.B = c.A[:min(len(c.A), 40)], c.B[:min(len(c.B), 40)]
		// numbers that are close to each other, large, small, of both signs
		num := func(r rec) int64 {
			base := []int64{0, 1, 1 << 53, math.MaxInt64 - 3, math.MinInt64 + 3, 1e15, -1, 256, 65536}[(len(r.A)*3+len(r.B))%9]
			return base + int64(r.N)
		}
		if err := checkSetOps("int64", conv(c.A, num), conv(c.B, num), ctx); err != nil {
			return err
		}
		flt := func(r rec) float64 {
			f := []float64{0.3, 1, 1e15, 1e-300, -1e300, 123456.789, math.MaxFloat64 / 4, 5e-324}[(len(r.A)+len(r.B)*3)%8]
			for i := 0; i < r.N; i++ {
				f = math.Nextafter(f, math.Inf(1))
			}
			return f
		}
		if err := checkSetOps("float64", conv(c.A, flt), conv(c.B, flt), ctx); err != nil {
			return err
		}
		list2 := func(r rec) []string {
			return [][]string{{r.A, r.B}, {r.A + r.B}, {r.A}, nil, {}, {r.A, r.B, ""}, {r.A, "", r.B}}[(len(r.A)+r.N*2)%7]
		}
		if err := checkSetOps("list", conv(c.A, list2), conv(c.B, list2), ctx); err != nil {
			return err
		}
		both := func(r rec) [2]string { return [2]string{r.A, r.B} }
		if err := checkSetOps("array", conv(c.A, both), conv(c.B, both), ctx); err != nil {
			return err
		}
		nest := func(r rec) nested { return nested{rec{r.A, r.B, r.N}, list2(r), recMap(r), flt(r), r.N == 1} }
		if err := checkSetOps("nested struct", conv(c.A, nest), conv(c.B, nest), ctx); err != nil {
			return err
		}
		structKeys := func(r rec) map[rec]int64 { return map[rec]int64{r: num(r), {r.B, r.A, 0}: 1} }
		if err := checkSetOps("map with struct keys", conv(c.A, structKeys), conv(c.B, structKeys), ctx); err != nil {
			return err
		}
		c = whole
		// Contains, Compact
		var list []any
		for _, m := range c.Mixed {
			list = append(list, m.val())
		}
		orig := slices.Clone(list)
		want := slices.Index(list, c.Elem.val()) >= 0
		ctx.Queries += 2
		if got := utils.Contains(list, c.Elem.val()); got != want {
			return fmt.Errorf("Contains(%#v, %#v) = %v", list, c.Elem.val(), got)
		}
		var distinct []any
		for _, x := range list {
			if slices.Index(distinct, x) < 0 {
				distinct = append(distinct, x)
			}
		}
		if got := utils.Compact(list); !slices.Equal(got, distinct) {
			return fmt.Errorf("Compact(%#v) = %#v, want %#v", list, got, distinct)
		}
		if !slices.Equal(orig, list) {
			return fmt.Errorf("Compact changed its argument: %#v -> %#v", orig, list)
		}
		// JoinSlices: all pairs satisfying the condition, in order
		type pair struct {
			L rec
			R int
		}
		nums := conv(c.B, func(r rec) int { return r.N })
		joined := utils.JoinSlices(c.A, nums, func(l rec, r int) bool { return l.N == r }, func(l rec, r int) pair { return pair{l, r} })
		var wantJoin []pair
		for _, l := range c.A {
			for _, r := range nums {
				if l.N == r {
					wantJoin = append(wantJoin, pair{l, r})
				}
			}
		}
		if !slices.Equal(joined, wantJoin) {
			return fmt.Errorf("JoinSlices(%v, %v) = %v, want %v", c.A, nums, joined, wantJoin)
		}
		// FilterByFields: every field set in the row and equal in both
		fields := []func(*[2]mixed) any{func(r *[2]mixed) any { return r[0].val() }, func(r *[2]mixed) any { return r[1].val() }}
		for i := 0; i+3 < len(c.Mixed); i += 2 {
			f, row := &[2]mixed{c.Mixed[i], c.Mixed[i+1]}, &[2]mixed{c.Mixed[i+2], c.Mixed[i+3]}
			if i%4 == 0 {
				row[0] = f[0]
			}
			for n := 0; n <= 2; n++ {
				want := true
				for _, get := range fields[:n] {
					want = want && get(row) != nil && get(row) == get(f)
				}
				ctx.Queries++
				if got := utils.FilterByFields(f, row, fields[:n]...); got != want {
					return fmt.Errorf("FilterByFields(%v, %v, the first %d) = %v", *f, *row, n, got)
				}
			}
		}
		// conversions
		for _, r := range c.A {
			s := r.A
			b := utils.ToByte(s)
			if string(b) != s || len(b) != len(s) || utils.FromByte([]byte(s)) != s || utils.FromByte(utils.ToByte(s)) != s {
				return fmt.Errorf("ToByte/FromByte do not round-trip %q", s)
			}
			if utils.ToString(s) != s || utils.ToString([]byte(s)) != s {
				return fmt.Errorf("ToString(%q) = %q, of its bytes %q", s, utils.ToString(s), utils.ToString([]byte(s)))
			}
			if utils.ToString(r.N) != fmt.Sprint(r.N) || utils.ToString(nil) != "" || utils.ToString(time.Duration(r.N)) != time.Duration(r.N).String() {
				return fmt.Errorf("ToString(%d) = %q", r.N, utils.ToString(r.N))
			}
		}
		inter := 0
		for _, y := range c.B {
			if slices.Contains(c.A, y) {
				inter++
			}
		}
		if inter > 0 && inter < len(c.B) {
			ctx.Label("proper intersection")
			ctx.NonTrivial()
		}
		if len(distinct) < len(list) {
			ctx.Label("repetitions")
			ctx.NonTrivial()
		}
		if want {
			ctx.Label("contained")
		}
		return nil
	})

// ---------------------------------------------------------------- C21: trie

type trieRow struct{ F []mixed }

type trieOp struct {
	Row   trieRow
	Query bool
	Fill  int    `json:",omitempty"` // that many rows with one field of their own
	Mask  []bool // fields of the filter that are set
}

type trieCase struct {
	Width int
	Ops   []trieOp
}

type trow struct {
	f   []any
	tag int
}

func genTrie(t *rapid.T) trieCase {
	g := G{t}
	c := trieCase{Width: g.Int(1, 5)}
	wide := g.P(10)
	n := g.Int(1, 25)
	if wide {
		c.Width, n = g.Int(6, 40), g.Int(1, 12)
	} else if g.P(10) {
		n = g.Int(26, 120)
	}
	small, many := g.P(50), false
	few := []string{"a", "b", "c"}
	if g.P(10) {
		x := Pick(g, twins)
		few = []string{x[0], x[1], "a"}
	}
	if !wide && g.P(3) {
		n, small, many = g.Int(150, 400), false, true
	}
	field := func() mixed {
		if small {
			return mixed{Pick(g, []string{"string", "nil", "string"}), Pick(g, few), 0}
		}
		m := mixed{Pick(g, []string{"string", "int", "int64", "bool", "nil", "nil", "string", "named", "stringer", "struct", "float", "array"}), g.Word(), g.Int(0, 5)}
		if many {
			m.N = g.Int(0, 500)
		}
		if g.P(10) { // text that reads like a value of another type
			m.T, m.S = "string", Pick(g, []string{"0", "1", "true", "0s", "1ns", "5ns", "<nil>", "nil"})
		}
		return m
	}
	for i := 0; i < n; i++ {
		o := trieOp{Query: g.P(25)}
		for j := 0; j < c.Width; j++ {
			o.Row.F = append(o.Row.F, field())
			o.Mask = append(o.Mask, g.P(50))
		}
		if wide && g.P(70) { // few fields set
			for j := range o.Row.F {
				if !g.P(10) {
					o.Row.F[j] = mixed{T: "nil"}
				}
			}
			o.Row.F[g.Int(0, c.Width-1)] = field()
		}
		if i > 0 && g.P(25) {
			o.Row = c.Ops[g.Int(0, i-1)].Row
			if wide && g.P(70) { // the same values, two of them in each other's fields
				o.Row.F = slices.Clone(o.Row.F)
				var set []int
				for j, m := range o.Row.F {
					if m.T != "nil" {
						set = append(set, j)
					}
				}
				if len(set) > 0 {
					x, y := Pick(g, set), g.Int(0, c.Width-1)
					o.Row.F[x], o.Row.F[y] = o.Row.F[y], o.Row.F[x]
				}
			}
		}
		c.Ops = append(c.Ops, o)
	}
	if g.P(1) && g.P(40) {
		c.Ops[g.Int(0, len(c.Ops)-1)].Fill = g.Huge()
	}
	return c
}

var _ = Register("C21",
	"sequences of inserts (rows of 1-40 fields, of several types, some nil, values shared between fields) and searches; oracle: a list of the distinct rows scanned with the same predicate; non-trivial: two rows that differ only in which field holds a value, or over 10 rows found",
	2, genTrie, func(c trieCase, ctx *Ctx) error {
		match := func(filter, row *trow) bool {
			for i, f := range filter.f {
				if f != nil && row.f[i] != f {
					return false
				}
			}
			return true
		}
		tr := trie.New[trow](match, func(d *trow) []any { return d.f })
		var model []*trow // distinct rows, the last inserted of equal ones
		type kept struct {
			what      string
			res, copy []*trow
		}
		var earlier []kept // what was returned stays as it was returned
		unchanged := func() error {
			for _, k := range earlier {
				if !slices.Equal(k.res, k.copy) {
					return fmt.Errorf("the result of %s changed afterwards", k.what)
				}
			}
			return nil
		}
		compare := func(what string, got []*trow, pred func(*trow) bool) error {
			ctx.Queries++
			if err := unchanged(); err != nil {
				return fmt.Errorf("after %s: %w", what, err)
			}
			if len(earlier) < 20 {
				earlier = append(earlier, kept{what, got, slices.Clone(got)})
			}
			want := map[*trow]bool{}
			for _, r := range model {
				if pred(r) {
					want[r] = true
				}
			}
			if len(want) > 10 {
				ctx.Label("over 10 rows found")
				ctx.NonTrivial()
			}
			if len(want) > 40 {
				ctx.Label("over 40 rows found")
			}
			seen := map[*trow]bool{}
			for _, r := range got {
				if r == nil {
					return fmt.Errorf("%s: a nil result", what)
				}
				if !want[r] {
					return fmt.Errorf("%s: result %v (#%d) is not a stored row that satisfies it", what, r.f, r.tag)
				}
				if seen[r] {
					return fmt.Errorf("%s: result %v twice", what, r.f)
				}
				seen[r] = true
			}
			if len(seen) != len(want) {
				return fmt.Errorf("%s: %d rows of %d", what, len(seen), len(want))
			}
			return nil
		}
		for i, o := range c.Ops {
			if len(o.Row.F) != c.Width || len(o.Mask) != c.Width {
				return nil
			}
			r := &trow{tag: i}
			for _, f := range o.Row.F {
				r.f = append(r.f, f.val())
			}
			for k := 0; k < o.Fill; k++ {
				x := &trow{tag: -k, f: slices.Clone(r.f)}
				x.f[0] = fmt.Sprintf("fill %d", k)
				tr.Insert(x)
				if k < c.Width { // insert it again
					x = &trow{tag: -k, f: slices.Clone(x.f)}
					tr.Insert(x)
				}
				model = append(model, x)
			}
			if !o.Query {
				tr.Insert(r)
				if j := slices.IndexFunc(model, func(x *trow) bool { return slices.Equal(x.f, r.f) }); j >= 0 {
					model[j] = r
					ctx.Label("equal row inserted again")
				} else {
					for _, x := range model {
						if sameValues(x.f, r.f) {
							ctx.Label("same values in other fields")
							ctx.NonTrivial()
						}
					}
					model = append(model, r)
				}
				continue
			}
			filter := &trow{}
			for j, f := range r.f {
				if !o.Mask[j] {
					f = nil
				}
				filter.f = append(filter.f, f)
			}
			pred := func(row *trow) bool { return match(filter, row) }
			if err := compare(fmt.Sprintf("op %d: Search(%v)", i, filter.f), tr.Search(filter), pred); err != nil {
				return err
			}
			nilCount := func(row *trow) bool { return slices.Contains(row.f, nil) }
			if err := compare(fmt.Sprintf("op %d: SearchFunc(has nil)", i), tr.SearchFunc(filter, func(_, row *trow) bool { return nilCount(row) }), nilCount); err != nil {
				return err
			}
			for k, first := range []*trow{tr.First(filter), tr.FirstFunc(filter, match)} {
				exists := slices.ContainsFunc(model, pred)
				if (first != nil) != exists || (first != nil && (!pred(first) || !slices.Contains(model, first))) {
					return fmt.Errorf("op %d: First(%v) (#%d) = %v, exists: %v", i, filter.f, k, first, exists)
				}
			}
		}
		if err := compare("Data()", tr.Data(), func(*trow) bool { return true }); err != nil {
			return err
		}
		return unchanged()
	})

func sameValues(a, b []any) bool {
	count := map[any]int{}
	for _, x := range a {
		if x != nil {
			count[x]++
		}
	}
	for _, x := range b {
		if x != nil {
			count[x]--
		}
	}
	for _, n := range count {
		if n != 0 {
			return false
		}
	}
	return true
}
