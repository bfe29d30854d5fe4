package harness

import (
	"encoding/json"
	"fmt"
	"reflect"
	"slices"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	permission "github.com/oarkflow/permission"
)

// ---------------------------------------------------------------- C12: history does not matter

type rHistCase struct {
	Base  rCase // Ops: registrations first (Early of them), then what commutes
	Early int
	Order []int // of the later ops
	Again []int // ops (of all) repeated at the end
	Asks  []int // after this many steps of the second history, ask everything
}

// commuting draws a configuration whose later steps commute: no default
// namespaces, no objects sharing an id, no attribute groups.
func (x *rGen) commuting(n int, bulk bool) (early int) {
	g := x.g
	x.c.Tenants, x.c.Roles = append([]string{}, x.tids...), append([]string{}, x.roleNames...)
	x.register(94)
	var head, tail []rOp
	for _, o := range x.c.Ops {
		if o.K == "regN" {
			tail = append(tail, o)
		} else {
			head = append(head, o)
		}
	}
	x.c.Ops = append(head, tail...)
	early = len(head)
	x.roleOps()
	x.tenantTree()
	if bulk && g.P(1) && g.P(30) {
		x.bulk()
	}
	for i := 0; i < n; i++ {
		x.assignment(false)
	}
	for i := range x.c.Ops {
		if x.c.Ops[i].K == "group" {
			x.c.Ops[i].K = "perm"
		}
	}
	return early
}

func genRHist(t *rapid.T) rHistCase {
	x := newRGen(t)
	g := x.g
	n := g.Int(2, 8)
	if g.P(5) {
		n = g.Int(12, 40)
		if g.P(15) {
			n = g.Big()
		}
	}
	early := x.commuting(n, true)
	x.probes(3, 8, 60)
	c := rHistCase{Base: x.c, Early: early}
	late := len(x.c.Ops) - early
	c.Order = g.Perm(late)
	for i := range x.c.Ops {
		if g.P(15) {
			c.Again = append(c.Again, i)
		}
	}
	for i := 0; i <= late; i++ {
		if g.P(15) {
			c.Asks = append(c.Asks, i)
		}
	}
	return c
}

// snapshot reads everything a role manager stores about assignments and roles.
func (w *rWorld) snapshot() string {
	var rows []string
	for _, d := range w.u.Data().Data() {
		rows = append(rows, js(rowOf(d)))
	}
	sort.Strings(rows)
	var roles []string
	for _, id := range w.u.Roles() {
		if strings.HasPrefix(id, "frchain") {
			continue
		}
		r, _ := w.u.GetRole(id)
		var ps []string
		for g, as := range r.GetAllImplicitPermissions() {
			for _, a := range as {
				ps = append(ps, js([]string{g, a.String()}))
			}
		}
		sort.Strings(ps)
		roles = append(roles, js([]any{id, ps}))
	}
	sort.Strings(roles)
	return strings.Join(rows, "\n") + "\n" + strings.Join(roles, "\n")
}

var _ = Register("C12",
	"a set of registrations, role definitions, hierarchy edges and assignments, performed in two orders, the second with steps repeated and queries in between; oracle: both managers hold the same rows and role permissions and answer every probe alike, twice, and no step ever turns a granted probe into a denied one; non-trivial: the orders differ and the probes have both answers",
	1, genRHist, func(c rHistCase, ctx *Ctx) error {
		ops := c.Base.Ops
		if c.Early > len(ops) || len(c.Order) != len(ops)-c.Early {
			return nil
		}
		a, b := newRWorld(&c.Base), newRWorld(&c.Base)
		do := func(w *rWorld, i int) error {
			if i < 0 || i >= len(ops) {
				return nil
			}
			if err := w.apply(ops[i]); err != nil && err != errSkip {
				return err
			}
			return nil
		}
		for i := range ops {
			if err := do(a, i); err != nil {
				return err
			}
		}
		for i := 0; i < c.Early; i++ {
			if err := do(b, i); err != nil {
				return err
			}
		}
		asks := map[int]bool{}
		for _, i := range c.Asks {
			asks[i] = true
		}
		granted := map[int]bool{}
		ask := func(when string) error {
			for i, q := range c.Base.Probes {
				if ctx.Over() {
					return nil
				}
				got := b.ask(q)
				ctx.Queries++
				if granted[i] && !got {
					return fmt.Errorf("%s: %s was granted, and is denied after more was added", when, js(q))
				}
				granted[i] = granted[i] || got
				if again := b.ask(q); again != got {
					return fmt.Errorf("%s: %s = %v, asked again %v", when, js(q), got, again)
				}
			}
			return nil
		}
		differ := false
		for k, j := range c.Order {
			if asks[k] {
				if err := ask(fmt.Sprintf("after %d later steps", k)); err != nil {
					return err
				}
			}
			if j != k {
				differ = true
			}
			if err := do(b, c.Early+j); err != nil {
				return err
			}
		}
		if err := ask("after all steps"); err != nil {
			return err
		}
		for _, i := range c.Again {
			if err := do(b, i); err != nil {
				return err
			}
		}
		if err := ask("after repetitions"); err != nil {
			return err
		}
		yes, no := 0, 0
		for i, q := range c.Base.Probes {
			x, y := a.ask(q), b.ask(q)
			ctx.Queries++
			if x != y {
				return fmt.Errorf("probe %d %s: %v in the first order, %v in the second", i, js(q), x, y)
			}
			if x {
				yes++
			} else {
				no++
			}
			ctx.Label("%s=%v", q.flags(), x)
		}
		if x, y := a.snapshot(), b.snapshot(); x != y {
			return fmt.Errorf("the two orders leave different rows or roles:\n%s\n--\n%s", x, y)
		}
		if differ {
			ctx.Label("orders differ")
		}
		if len(c.Again) > 0 {
			ctx.Label("steps repeated")
		}
		if differ && yes > 0 && no > 0 {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C13: isolation

type rIsoCase struct {
	Base  rCase // probes: about one principal
	NT    []string
	NR    []string
	Noise []rOp // about others; handles count on after the base objects
	At    []int // before this op of the base
}

func (g G) similar(id string, known []string) string {
	for _, s := range []string{id + "_", id + "x", "_" + id, id + " ", id + "/" + id, id + ":", strings.ToUpper(id), strings.ToLower(id)} {
		if !contains(known, s) && g.P(35) {
			return s
		}
	}
	for i := 0; ; i++ {
		if s := fmt.Sprintf("other%d", i); !contains(known, s) {
			return s
		}
	}
}

func genRIso(t *rapid.T) rIsoCase {
	x := newRGen(t)
	g := x.g
	x.register(95)
	if g.P(15) {
		i := g.Int(0, len(x.tids)-1)
		n := Pick(g, x.nss)
		x.op(rOp{K: "defns", H: i, A: n})
		x.defs[i] = n
	}
	x.roleOps()
	x.tenantTree()
	if g.P(1) && g.P(25) {
		x.bulk()
	}
	for i := g.Int(2, 7); i > 0; i-- {
		x.assignment(true)
	}
	x.probes(3, 7, 50)
	me := Pick(g, x.principals)
	c := rIsoCase{Base: x.c}
	noTenant := g.P(40) // then I must not be assigned to further tenants
	for i := range c.Base.Probes {
		q := &c.Base.Probes[i]
		for _, row := range x.rows {
			if row.P == me && row.T != "" && g.P(60) {
				q.T = row.T
				if row.N != "" && g.P(70) {
					q.N = row.N
				}
				if row.S != "" && g.P(70) {
					q.S = row.S
				}
			}
		}
		q.P = me
		if q.T == "" && !noTenant {
			q.T = Pick(g, x.tids)
		}
		if noTenant && g.P(60) {
			q.T = ""
			if q.N == "" {
				q.N = Pick(g, x.nss)
			}
			if q.S == "" {
				q.S = Pick(g, x.scopes)
			}
		}
	}
	var others []string
	for _, p := range x.principals {
		if p != me {
			others = append(others, p)
		}
	}
	others = append(others, g.similar(me, x.principals))
	known := append([]string{}, x.tids...)
	for i := g.Int(1, 3); i > 0; i-- {
		id := g.similar(Pick(g, x.tids), known)
		known = append(known, id)
		c.NT = append(c.NT, id)
	}
	conf, confP, confT := -1, "", "" // what reads like me in my tenant
	if q := Pick(g, c.Base.Probes); q.T != "" && g.P(30) {
		var ok bool
		if confP, confT, ok = g.Confusable(me, q.T); ok {
			others = append([]string{confP}, others...)
			conf = slices.Index(x.tids, confT)
			if conf < 0 {
				if !contains(known, confT) {
					known = append(known, confT)
					c.NT = append(c.NT, confT)
				}
				conf = len(c.Base.Tenants) + slices.Index(c.NT, confT)
			}
		}
	}
	known = append([]string{}, x.roleNames...)
	for i := g.Int(1, 3); i > 0; i-- {
		id := g.similar(Pick(g, x.roleNames), known)
		known = append(known, id)
		c.NR = append(c.NR, id)
	}
	nT, nR := len(c.Base.Tenants), len(c.Base.Roles)
	noiseT := func() int { return nT + g.Int(0, len(c.NT)-1) }
	noiseR := func() int { return nR + g.Int(0, len(c.NR)-1) }
	anyT := func() int {
		if g.P(70) {
			return g.Int(0, len(x.tids)-1)
		}
		return noiseT()
	}
	// the others' objects are known to the manager, mostly
	add := func(o rOp, at int) {
		c.Noise = append(c.Noise, o)
		c.At = append(c.At, at)
	}
	// rows of the base: another principal may hold a role that the tenant has anyway
	w := newRWorld(&c.Base)
	for _, o := range c.Base.Ops {
		w.model(o)
	}
	var held []rRow
	for _, js := range w.m.where(func(r rRow) bool { return r.R != "" && r.T != "" }) {
		var r rRow
		_ = json.Unmarshal([]byte(js), &r)
		held = append(held, r)
	}
	early := 0
	for early < len(c.Base.Ops) && strings.HasPrefix(c.Base.Ops[early].K, "reg") {
		early++
	}
	for i := range c.NT {
		add(rOp{K: "regT", H: nT + i}, early)
	}
	for i := range c.NR {
		if g.P(90) {
			add(rOp{K: "regR", H: nR + i}, early)
		}
	}
	if g.P(90) { // not one of the base: its assignments would then take effect
		add(rOp{K: "regP", A: others[len(others)-1]}, early)
	}
	if conf >= 0 {
		if !contains(x.principals, confP) {
			add(rOp{K: "regP", A: confP}, early)
		}
		row := rRow{T: confT, P: confP, R: Pick(g, c.NR), M: Pick(g, []string{"", "true", "false"})}
		if conf >= nT {
			row.R = Pick(g, append(append([]string{}, x.roleNames...), c.NR...))
		}
		if g.P(30) {
			row.N = Pick(g, x.nss)
		}
		if g.P(30) {
			row.S = Pick(g, x.scopes)
		}
		if g.P(20) {
			row.R = ""
		}
		add(rOp{K: "data", D: &row}, len(c.Base.Ops))
	}
	for n := g.Int(3, 14); n > 0; n-- {
		p, s, ns := Pick(g, others), Pick(g, x.scopes), Pick(g, x.nss)
		var o rOp
		switch g.Int(0, 12) {
		case 0, 1, 2: // others, anywhere, with roles of their own
			o = rOp{K: "assign", H: anyT(), A: p, S: []string{Pick(g, c.NR)}, F: g.P(60)}
			if len(held) > 0 && g.P(40) { // or one that the tenant has anyway
				row := Pick(g, held)
				row.P, row.N, row.S, row.M = p, "", "", Pick(g, []string{"", "true", "false"})
				if g.P(30) {
					row.N = ns
				}
				if g.P(30) {
					row.S = s
				}
				o = rOp{K: "data", D: &row}
			}
		case 3:
			o = rOp{K: "scopes", H: anyT(), A: p, S: []string{s}, F: g.P(60)}
		case 4:
			o = rOp{K: "pin", H: anyT(), A: ns, B: p, C: Pick(g, c.NR)}
		case 5: // other tenants: anything
			o = rOp{K: Pick(g, []string{"tns", "tscope", "trole"}), H: noiseT()}
			o.S = []string{map[string]string{"tns": ns, "tscope": s, "trole": Pick(g, x.roleNames)}[o.K]}
		case 6:
			o = rOp{K: "tsn", H: noiseT(), A: ns, B: s}
		case 7: // other tenants above or below mine (none both: that would connect mine)
			o = rOp{K: "tdesc", H: noiseT(), L: []int{g.Int(0, len(x.tids)-1)}}
			if (o.H-nT)%2 == 1 {
				o.H, o.L[0] = o.L[0], o.H
			}
		case 8:
			o = rOp{K: "perm", H: noiseR(), A: Pick(g, x.groups), S: []string{Pick(g, []string{"*", "/a", g.PermResource()}), Pick(g, []string{"*", "GET"})}}
		case 9: // a role above mine has my permissions, not the other way round
			o = rOp{K: "rdesc", H: noiseR(), L: []int{g.Int(0, len(x.roleNames)-1)}}
		case 10: // me, elsewhere (below no tenant of the base), with any role
			if noTenant {
				continue
			}
			k := g.Int(0, len(c.NT)-1)
			row := rRow{T: c.NT[k], P: me, R: Pick(g, append(append([]string{}, x.roleNames...), c.NR...)), M: "false"}
			if k%2 == 1 { // not above a tenant of the base
				row.M = Pick(g, []string{"", "true", "false"})
			}
			if g.P(40) {
				row.N = ns
			}
			if g.P(40) {
				row.S = s
			}
			o = rOp{K: "data", D: &row}
		case 11:
			row := rRow{T: c.Base.Tenants[g.Int(0, len(x.tids)-1)], N: ns, S: s, P: p, M: Pick(g, []string{"", "true", "false"})}
			if g.P(30) {
				row.R = Pick(g, c.NR)
			}
			o = rOp{K: "data", D: &row}
		default:
			q := x.request(50)
			o = rOp{K: "ask", R: &q}
		}
		at := g.Int(early, len(c.Base.Ops))
		if g.P(50) {
			at = len(c.Base.Ops)
		}
		add(o, at)
	}
	if !raceOn && g.P(3) {
		// a crowd of others
		o := rOp{K: "crowd", A: Pick(g, []string{"below", "rows", "roles", "tenants", "principals", "mine"}), B: me, H: g.Int(0, len(x.tids)-1), N: g.Big()}
		if g.P(10) {
			o.N = g.Huge()
		}
		if noTenant && o.A == "mine" {
			o.A = "rows"
		}
		row := rRow{T: x.tids[o.H], R: Pick(g, append(append([]string{}, x.roleNames...), c.NR...)), M: Pick(g, []string{"", "true", "false"})}
		if o.A == "rows" {
			row.R = Pick(g, c.NR)
			if g.P(30) {
				row.N = Pick(g, x.nss)
			}
			if g.P(30) {
				row.S = Pick(g, x.scopes)
			}
		}
		o.L = []int{g.Int(0, len(x.roleNames)-1)}
		o.D = &row
		at := len(c.Base.Ops)
		if g.P(40) {
			at = early
		}
		add(o, at)
	}
	return c
}

// crowd adds many others, of which no question is about any.
func (w *rWorld) crowd(o rOp) {
	if o.D == nil || len(o.L) != 1 || o.L[0] < 0 || o.L[0] >= len(w.rr) || o.H < 0 || o.H >= len(w.rt) {
		return
	}
	for i := 0; i < o.N; i++ {
		id := "crowd" + strconv.Itoa(i)
		row := *o.D
		switch o.A {
		case "below", "tenants":
			t := w.u.AddTenant(permission.NewTenant(id))
			if o.A == "below" {
				_ = w.rt[o.H].AddDescendant(t)
			}
		case "rows":
			row.P = id
			insertRow(w.u, row.data())
		case "principals":
			w.u.AddPrincipal(permission.NewPrincipal(id))
		case "mine":
			row.T, row.P = id, o.B
			insertRow(w.u, row.data())
		case "roles":
			_ = w.u.AddRole(permission.NewRole(id)).AddDescendant(w.rr[o.L[0]])
		}
	}
}

var _ = Register("C13",
	"a configuration, and the same with steps about others mixed in (other principals in the same tenants with roles of their own, unrelated tenants with anybody in them, tenants above and below, roles above), ids chosen similar; oracle: every decision about the principal in its tenants is the same with and without; non-trivial: some probe is granted and some denied, and the noise holds an assignment",
	2, genRIso, func(c rIsoCase, ctx *Ctx) error {
		if len(c.At) != len(c.Noise) {
			return nil
		}
		full := c.Base
		full.Tenants = append(append([]string{}, c.Base.Tenants...), c.NT...)
		full.Roles = append(append([]string{}, c.Base.Roles...), c.NR...)
		a, b := newRWorld(&full), newRWorld(&full)
		do := func(w *rWorld, o rOp) error {
			if o.K == "crowd" {
				w.crowd(o)
				return nil
			}
			if o.K == "ask" {
				if o.R != nil {
					w.ask(*o.R)
				}
				return nil
			}
			if err := w.apply(o); err != nil && err != errSkip {
				return err
			}
			return nil
		}
		assigns := 0
		for i := 0; i <= len(c.Base.Ops); i++ {
			for k, at := range c.At {
				if at == i {
					switch c.Noise[k].K {
					case "assign", "scopes", "pin", "data":
						assigns++
					}
					if err := do(b, c.Noise[k]); err != nil {
						return fmt.Errorf("noise %d: %w", k, err)
					}
				}
			}
			if i < len(c.Base.Ops) {
				if err := do(a, c.Base.Ops[i]); err != nil {
					return fmt.Errorf("op %d: %w", i, err)
				}
				if err := do(b, c.Base.Ops[i]); err != nil {
					return fmt.Errorf("op %d, with noise: %w", i, err)
				}
			}
		}
		yes, no := 0, 0
		for i, q := range c.Base.Probes {
			ctx.Queries++
			x, y := a.ask(q), b.ask(q)
			if x != y {
				return fmt.Errorf("probe %d %s = %v, with changes about others %v", i, js(q), x, y)
			}
			ctx.Label("%s=%v", q.flags(), x)
			if x {
				yes++
			} else {
				no++
			}
		}
		if yes > 0 && no > 0 && assigns > 0 {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C15: what was stored can be read back

type rQueryCase struct {
	rCase
	Ask [][4]string // principal, tenant, namespace, scope
	At  []int       // ask i is also asked before this step
}

func genRQuery(t *rapid.T) rQueryCase {
	x := newRGen(t)
	g := x.g
	x.register(90)
	if g.P(30) {
		i := g.Int(0, len(x.tids)-1)
		n := Pick(g, x.nss)
		x.op(rOp{K: "defns", H: i, A: n})
		x.defs[i] = n
	}
	late := g.P(30) // the hierarchies last
	if !late {
		x.roleOps()
		x.tenantTree()
	}
	if g.P(1) && g.P(30) {
		x.bulk()
	}
	n := g.Int(2, 10)
	if g.P(10) {
		n = g.Int(20, 80)
		if g.P(10) {
			n = g.Big()
		}
	}
	for i := 0; i < n; i++ {
		x.assignment(true)
	}
	if late {
		x.tenantTree()
		x.roleOps()
	}
	c := rQueryCase{rCase: x.c}
	or := func(id string, xs []string) string {
		switch {
		case id != "" && g.P(85):
			return id
		case g.P(5):
			return "unknown"
		}
		return Pick(g, xs)
	}
	for i := g.Int(2, 4); i > 0; i-- {
		var row rRow
		if len(x.rows) > 0 {
			row = Pick(g, x.rows)
		}
		c.Ask = append(c.Ask, [4]string{or(row.P, x.principals), or(row.T, x.tids), or(row.N, x.nss), or(row.S, x.scopes)})
		if g.P(50) {
			c.At = append(c.At, g.Int(0, len(x.c.Ops)))
		}
	}
	return c
}

// What a query returned is the caller's: it stays as it was, or the caller
// overwrites it, and either way the next answers are right.
type rKept struct {
	name string
	got  []*permission.Data
	copy []permission.Data
}

func (w *rWorld) keep(name string, got []*permission.Data) {
	w.results++
	switch {
	case w.results%2 == 0:
		for i := range got {
			got[i] = nil
		}
	case len(w.kept) < 40:
		k := rKept{name: name, got: got}
		for _, d := range got {
			k.copy = append(k.copy, *d)
		}
		w.kept = append(w.kept, k)
	}
}

func (w *rWorld) stillKept() error {
	for _, k := range w.kept {
		for i, d := range k.copy {
			if k.got[i] == nil || *k.got[i] != d {
				return fmt.Errorf("the result of %s held %v and holds %v afterwards", k.name, d, k.got[i])
			}
		}
	}
	return nil
}

func spoiled(xs []any) []string {
	out := sortedAny(xs)
	for i := range xs {
		xs[i] = "spoiled"
	}
	return out
}

func notText(row string) bool { return strings.Contains(row, rawFF) || strings.Contains(row, rawC3) }

func rowStrings(ds []*permission.Data) []string {
	out := []string{}
	for _, d := range ds {
		out = append(out, js(rowOf(d)))
	}
	sort.Strings(out)
	return out
}

func (m *rModel) where(f func(r rRow) bool) []string {
	out := []string{}
	for r := range m.rows {
		if f(r) {
			out = append(out, js(r))
		}
	}
	sort.Strings(out)
	return out
}

func sortedAny(xs []any) []string {
	out := []string{}
	for _, x := range xs {
		if x == "" {
			x = emptyID
		}
		out = append(out, js(x))
	}
	sort.Strings(out)
	return out
}

func ids(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, js(k))
	}
	sort.Strings(out)
	return out
}

func distinct(xs []string) []string {
	out := []string{}
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// column: the distinct values of one field over the rows, nil included.
func column(rows []string, f func(r rRow) string) []string {
	vals := []string{}
	for _, s := range rows {
		var r rRow
		_ = json.Unmarshal([]byte(s), &r)
		rawBytes(reflect.ValueOf(&r).Elem())
		v := js(f(r))
		if f(r) == "" {
			v = "null"
		}
		vals = append(vals, v)
	}
	sort.Strings(vals)
	return distinct(vals)
}

func (w *rWorld) checkQueries(p, t, n, s string, ctx *Ctx) (found int, err error) {
	u, m := w.u, w.m
	eq := func(name string, got, want []string) {
		ctx.Queries++
		if err == nil && js(got) != js(want) {
			err = fmt.Errorf("%s for principal %q tenant %q namespace %q scope %q: %v, stored: %v", name, p, t, n, s, got, want)
		}
	}
	rows := func(name string, got []*permission.Data, f func(r rRow) bool) {
		want := m.where(f)
		found += len(want)
		eq(name, rowStrings(got), want)
		eq(name+"/GetTenantIDs", spoiled(permission.GetTenantIDs(got)), column(want, func(r rRow) string { return r.T }))
		eq(name+"/GetNamespaceIDs", spoiled(permission.GetNamespaceIDs(got)), column(want, func(r rRow) string { return r.N }))
		eq(name+"/GetScopeIDs", spoiled(permission.GetScopeIDs(got)), column(want, func(r rRow) string { return r.S }))
		eq(name+"/GetPrincipalIDs", spoiled(permission.GetPrincipalIDs(got)), column(want, func(r rRow) string { return r.P }))
		eq(name+"/GetRoleIDs", spoiled(permission.GetRoleIDs(got)), column(want, func(r rRow) string { return r.R }))
		if err == nil {
			w.keep(name, got)
		}
	}
	mine := func(r rRow) bool { return r.P == "" || r.P == p }
	inNS := func(r rRow) bool { return r.N == "" || r.N == n }
	inS := func(r rRow) bool { return r.S == "" || r.S == s }
	member := m.member(p)
	rows("GetTenants", u.GetTenants(rid(p)), func(r rRow) bool { return r.P == p && r.T != "" })
	eq("GetTenantsByPrincipal", spoiled(u.GetTenantsByPrincipal(rid(p))), ids(member))
	var imp []string
	implicit := u.GetImplicitTenants(rid(p))
	for id := range implicit {
		imp = append(imp, js(unrid(id)))
	}
	clear(implicit)
	sort.Strings(imp)
	eq("GetImplicitTenants", append([]string{}, imp...), ids(m.implicit(p)))
	var kids map[string]bool
	if m.tenants[t] != nil {
		kids = m.tenants[t].descendants()
	}
	eq("TenantChildren", spoiled(u.TenantChildren(rid(t))), ids(kids))
	eq("GetDescendantTenant", distinct(spoiled(u.GetDescendantTenant(rid(t)))), ids(kids))
	rows("GetScopesByPrincipal", u.GetScopesByPrincipal(rid(p)), func(r rRow) bool { return r.P == p && r.S != "" && r.T != "" })
	rows("GetRolesByTenant", u.GetRolesByTenant(rid(t)), func(r rRow) bool { return r.T == t && r.R != "" })
	rows("GetNamespacesByPrincipal", u.GetNamespacesByPrincipal(rid(p)), func(r rRow) bool { return member[r.T] && r.N != "" && mine(r) })
	inT := func(r rRow) bool { return r.T == t }
	rows("GetNamespacesForPrincipalByTenant", u.GetNamespacesForPrincipalByTenant(rid(p), rid(t)), func(r rRow) bool { return inT(r) && r.N != "" && mine(r) })
	rows("GetNamespaceForPrincipalByTenant", u.GetNamespaceForPrincipalByTenant(rid(p), rid(t)), func(r rRow) bool { return inT(r) && r.N != "" && mine(r) })
	rows("GetNamespacesByTenant", u.GetNamespacesByTenant(rid(t)), func(r rRow) bool { return inT(r) && r.N != "" })
	rows("GetNamespaceByTenant", u.GetNamespaceByTenant(rid(t)), func(r rRow) bool { return inT(r) && r.N != "" })
	rows("GetScopesByTenant", u.GetScopesByTenant(rid(t)), func(r rRow) bool { return inT(r) && r.S != "" })
	rows("GetScopesForPrincipalByTenant", u.GetScopesForPrincipalByTenant(rid(p), rid(t)), func(r rRow) bool { return inT(r) && r.S != "" && mine(r) })
	rows("GetScopeForPrincipalByNamespace", u.GetScopeForPrincipalByNamespace(rid(p), rid(n)), func(r rRow) bool { return member[r.T] && r.S != "" && mine(r) && inNS(r) })
	rows("GetScopesForPrincipalByTenantAndNamespace", u.GetScopesForPrincipalByTenantAndNamespace(rid(p), rid(t), rid(n)), func(r rRow) bool { return inT(r) && r.S != "" && mine(r) && inNS(r) })
	rows("GetRolesForPrincipalByTenantNamespaceAndScope", u.GetRolesForPrincipalByTenantNamespaceAndScope(rid(p), rid(t), rid(n), rid(s)), func(r rRow) bool {
		return inT(r) && r.P == p && r.R != "" && inNS(r) && inS(r)
	})
	rows("GetRolesForPrincipalByTenantAndNamespace", u.GetRolesForPrincipalByTenantAndNamespace(rid(p), rid(t), rid(n)), func(r rRow) bool { return inT(r) && r.P == p && r.R != "" && inNS(r) })
	rows("GetRolesForPrincipalByTenantAndScope", u.GetRolesForPrincipalByTenantAndScope(rid(p), rid(t), rid(s)), func(r rRow) bool { return inT(r) && r.P == p && r.R != "" && inS(r) })
	role := "unknown"
	for _, id := range w.c.Roles {
		if len(m.where(func(r rRow) bool { return r.R == id && r.P == p })) > 0 {
			role = id
			break
		}
	}
	// subsets of the fields, every one in turn
	for i := 0; i < 13; i++ {
		w.turn++
		k := w.turn % 96
		f := rRow{M: []string{"", "true", "false"}[k/32]}
		for i, set := range []struct {
			to   *string
			from string
		}{{&f.T, t}, {&f.P, p}, {&f.N, n}, {&f.S, s}, {&f.R, role}} {
			if k>>i&1 == 1 {
				*set.to = set.from
			}
		}
		match := func(r rRow) bool {
			return (f.T == "" || f.T == r.T) && (f.P == "" || f.P == r.P) && (f.N == "" || f.N == r.N) && (f.S == "" || f.S == r.S) && (f.R == "" || f.R == r.R) && (f.M == "" || f.M == r.M)
		}
		rows("Data().Search "+js(f), u.Data().Search(f.data()), match)
		first := u.Data().First(f.data())
		want := m.where(match)
		ctx.Queries++
		if err == nil && ((first == nil) != (len(want) == 0) || (first != nil && !contains(want, js(rowOf(first))))) {
			err = fmt.Errorf("Data().First(%s) = %v, stored: %v", js(f), first, want)
		}
	}
	if err != nil {
		return
	}
	// scopes with roles: of this tenant (or, for somebody who only manages it
	// from above, of the managing tenants), with my roles there
	tenants := map[string]bool{t: true}
	if !member[t] {
		tenants = map[string]bool{}
		for id, ds := range m.managing(p) {
			if id != t && ds[t] {
				tenants[id] = true
			}
		}
	}
	// each scope of the namespace's rows (of the tenant's, where the namespace has
	// none) with every role of mine, and my own rows with scope and role
	want := map[string]map[string]bool{}
	put := func(scope, role string) {
		if want[scope] == nil {
			want[scope] = map[string]bool{}
		}
		want[scope][role] = true
	}
	for id := range tenants {
		mine, inNamespace, inTenant := map[string]bool{}, map[string]bool{}, map[string]bool{}
		for r := range m.rows {
			if r.T != id {
				continue
			}
			if r.S != "" {
				inTenant[r.S] = true
				if r.N != "" && r.N == n {
					inNamespace[r.S] = true
				}
			}
			if r.P == p {
				mine[r.R] = true
				if r.S != "" && r.R != "" {
					put(r.S, r.R)
				}
			}
		}
		if len(inNamespace) == 0 {
			inNamespace = inTenant
		}
		for scope := range inNamespace {
			for role := range mine {
				put(scope, role)
			}
		}
	}
	got := map[string]map[string]bool{}
	for _, sr := range u.GetScopesWithRolesForPrincipal(rid(p), rid(t), rid(n)) {
		ctx.Queries++
		id := rowOf(&permission.Data{Scope: sr.Scope}).S
		if got[id] != nil {
			return found, fmt.Errorf("GetScopesWithRolesForPrincipal(%q, %q, %q) lists scope %v again", p, t, n, sr.Scope)
		}
		got[id] = map[string]bool{}
		for _, r := range sr.Roles {
			got[id][rowOf(&permission.Data{Role: r}).R] = true
		}
	}
	for _, x := range []map[string]map[string]bool{want, got} {
		for _, roles := range x {
			// rows without a role may or may not be listed as such
			delete(roles, "")
		}
	}
	if js(want) != js(got) {
		return found, fmt.Errorf("GetScopesWithRolesForPrincipal(%q, %q, %q) lists %s, the rows of the tenants %v give %s", p, t, n, js(got), ids(tenants), js(want))
	}
	return found, nil
}

// checkAvailable: who has which permission.
func (w *rWorld) checkAvailable(ctx *Ctx) error {
	want := map[string]map[string]bool{}
	for id, r := range w.m.roles {
		below := r.below()
		below[r] = true
		for d := range below {
			for g, ps := range d.perms {
				for p := range ps {
					k := js([]string{g, p})
					if want[k] == nil {
						want[k] = map[string]bool{}
					}
					want[k][id] = true
				}
			}
		}
	}
	got := map[string]map[string]bool{}
	for g, as := range w.u.GetRolesForAvailablePermissions() {
		for _, a := range as {
			k := js([]string{g, a.Attribute.String()})
			if got[k] == nil {
				got[k] = map[string]bool{}
			}
			for _, r := range a.Roles {
				got[k][unrid(r)] = true
			}
		}
	}
	ctx.Queries++
	if js(got) != js(want) {
		return fmt.Errorf("GetRolesForAvailablePermissions = %s, the roles say %s", js(got), js(want))
	}
	return nil
}

var _ = Register("C15",
	"histories of assignments of every kind (each tenant method, and whole rows), and in between and at the end every query of the manager for principals, tenants, namespaces and scopes taken from the rows; oracle: filters over the set of rows that the history stored, every row once, and results stay as returned whatever is done later or to other results; role listings against the role graph; non-trivial: over 4 rows stored and over 10 rows read back",
	1, genRQuery, func(c rQueryCase, ctx *Ctx) error {
		w := newRWorld(&c.rCase)
		for i, o := range c.Ops {
			if ctx.Over() {
				return nil
			}
			for k, at := range c.At {
				if at == i && k < len(c.Ask) {
					if _, err := w.checkQueries(c.Ask[k][0], c.Ask[k][1], c.Ask[k][2], c.Ask[k][3], ctx); err != nil {
						return fmt.Errorf("before op %d: %w", i, err)
					}
					if err := w.checkAvailable(ctx); err != nil {
						return fmt.Errorf("before op %d: %w", i, err)
					}
					ctx.Label("asked in between")
				}
			}
			if err := w.apply(o); err != nil && err != errSkip {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
		all := w.m.where(func(rRow) bool { return true })
		if got := rowStrings(w.u.Data().Data()); js(got) != js(all) {
			return fmt.Errorf("Data() = %v, stored: %v", got, all)
		}
		if got := rowStrings(w.u.Source().Data()); js(got) != js(all) {
			return fmt.Errorf("Source() = %v, stored: %v", got, all)
		}
		var parsed []*permission.Data
		if err := json.Unmarshal([]byte(w.u.AsString()), &parsed); err != nil {
			return fmt.Errorf("AsString: %v", err)
		}
		// bytes that are no text are replaced in the export
		if got := rowStrings(parsed); len(got) != len(all) || !slices.ContainsFunc(all, notText) && js(got) != js(all) {
			return fmt.Errorf("AsString = %v, stored: %v", got, all)
		}
		found := 0
		for _, a := range c.Ask {
			n, err := w.checkQueries(a[0], a[1], a[2], a[3], ctx)
			if err != nil {
				return err
			}
			found += n
		}
		if err := w.checkAvailable(ctx); err != nil {
			return err
		}
		if err := w.stillKept(); err != nil {
			return err
		}
		switch {
		case len(all) > 20:
			ctx.Label("over 20 rows")
		case len(all) > 4:
			ctx.Label("5-20 rows")
		default:
			ctx.Label("up to 4 rows")
		}
		if len(all) > 4 && found > 10 {
			ctx.NonTrivial()
		}
		return nil
	})
