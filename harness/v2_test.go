package harness

import (
	"context"
	"fmt"
	"log/slog"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	v2 "github.com/oarkflow/permission/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C02, C06

func genV2(canPc int) func(t *rapid.T) v2Case {
	return func(t *rapid.T) v2Case {
		x := newV2Gen(t)
		x.setup()
		if x.g.P(1) && x.g.P(35) {
			x.bulk()
		}
		x.history(0, 14, canPc)
		x.probes(x.g.Int(2, 6), canPc)
		return x.c
	}
}

func evalV2(c v2Case, ctx *Ctx) error {
	w := newV2World(&c)
	var grants, denials, flips int
	last := map[int]bool{}
	probe := func(when string) error {
		for i, q := range c.Probes {
			want, err := w.compare(q, ctx)
			if err != nil {
				return fmt.Errorf("%s, probe %d: %w", when, i, err)
			}
			if want {
				grants++
			} else {
				denials++
			}
			if prev, ok := last[i]; ok && prev != want {
				flips++
				ctx.Label("decision changed to %v", want)
			}
			last[i] = want
		}
		return nil
	}
	for i, o := range c.Ops {
		if ctx.Over() {
			return nil
		}
		if o.K == "ask" {
			if o.R == nil {
				continue
			}
			if _, err := w.compare(*o.R, ctx); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
			continue
		}
		if o.K == "churn" {
			if err := w.churn(o, ctx); err != nil {
				return fmt.Errorf("op %d (%s): %w", i, o.K, err)
			}
			ctx.Label("many questions at once")
		}
		spins := i+1 < len(c.Ops) && c.Ops[i+1].K == "spin"
		if spins {
			if err := probe(fmt.Sprintf("before op %d (%s)", i, o.K)); err != nil {
				return err
			}
		}
		if err := w.apply(o); err != nil && err != errSkip {
			return fmt.Errorf("op %d: %w", i, err)
		}
		if spins {
			ctx.Label("many changes at once")
			continue
		}
		// the set-up grows one step at a time: look at it now and then, and
		// after every step that takes something away
		if i%7 == 0 || o.K == "unassign" || o.K == "unperm" || o.K == "status" || o.K == "defns" || o.K == "default" || o.K == "tenant" || o.K == "role" || o.K == "edge" || o.K == "spin" {
			if err := probe(fmt.Sprintf("after op %d (%s)", i, o.K)); err != nil {
				return err
			}
		}
		for _, q := range w.around(o, len(c.Probes) > 0 && c.Probes[0].Can) {
			if _, err := w.compare(q, ctx); err != nil {
				return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
			}
		}
	}
	if err := probe("at the end"); err != nil {
		return err
	}
	if grants > 0 && denials > 0 {
		ctx.NonTrivial()
	}
	if flips > 0 {
		ctx.Label("flips")
	}
	return nil
}

var _ = Register("C02",
	"histories of configuration steps (tenants, hierarchy, status, namespaces, scopes, roles, child roles, permissions, assignments, removals, default tenant) with requests derived from the configuration and mutated; oracle: reference decision procedure over the current configuration; non-trivial: the case has both granted and denied requests",
	2, genV2(0), evalV2)

var _ = Register("C06",
	"as C02, with Can: does the principal hold one of these roles; oracle: reference role resolution; non-trivial: both answers occur",
	2, genV2(100), evalV2)

// ---------------------------------------------------------------- C03: role graph

type v2RoleCase struct {
	Roles      []string
	Registered []bool
	Edges      [][]string // parent, children...
	Late       []int      // registered after the edges
}

func genV2Roles(t *rapid.T) v2RoleCase {
	g := G{t}
	n := g.Int(2, 8)
	shape := "random"
	switch {
	case g.P(6):
		n, shape = g.Int(20, 70), "chain"
		if g.P(20) {
			n = g.Big()
		}
	case g.P(6):
		n, shape = g.Int(20, 50), "ladder"
	}
	c := v2RoleCase{Roles: g.IDs(n, "R", g.OddPool(30))}
	reg := 85
	if shape != "random" {
		reg = 99
	}
	for i := range c.Roles {
		c.Registered = append(c.Registered, g.P(reg))
		if !c.Registered[i] && g.P(50) {
			c.Late = append(c.Late, i)
		}
	}
	R := c.Roles
	switch shape {
	case "chain":
		for i := 1; i < n; i++ {
			c.Edges = append(c.Edges, []string{R[i-1], R[i]})
		}
	case "ladder": // 2^(n/2) paths
		for i := 0; i+3 < n; i += 2 {
			c.Edges = append(c.Edges, []string{R[i], R[i+2], R[i+3]}, []string{R[i+1], R[i+2], R[i+3]})
		}
	}
	if shape != "random" && g.P(50) {
		p := g.Perm(len(c.Edges))
		e := make([][]string, len(p))
		for i, k := range p {
			e[i] = c.Edges[k]
		}
		c.Edges = e
	}
	k := g.Int(1, 12)
	for i := 0; i < k; i++ {
		var e []string
		if g.P(70) { // mostly downwards, so that the graph grows
			a := g.Int(0, n-2)
			e = []string{R[a], R[g.Int(a+1, n-1)]}
		} else {
			e = []string{Pick(g, R), Pick(g, R)}
		}
		for g.P(25) {
			e = append(e, Pick(g, R))
		}
		c.Edges = append(c.Edges, e)
	}
	return c
}

var _ = Register("C03",
	"role graphs built edge by edge (random, long chains, ladders with exponentially many paths, edges that would close a cycle, unregistered roles, roles registered late); oracle: graph reachability, read back through AddChildRole's error and a full role-by-permission matrix of Authorize and Can; non-trivial: an edge is refused, or a role inherits over two or more edges",
	1, genV2Roles, func(c v2RoleCase, ctx *Ctx) error {
		n := len(c.Roles)
		if len(c.Registered) != n {
			return nil
		}
		m := newV2Model()
		a := v2.NewAuthorizer()
		tn := a.AddTenant(v2.NewTenant("T", "N"))
		_ = tn
		idx := map[string]int{}
		objs := make([]*v2.Role, n)
		reg := func(i int) {
			a.AddRole(objs[i])
			m.roles[c.Roles[i]] = &v2mRole{name: c.Roles[i], perms: map[string]bool{}}
		}
		for i, r := range c.Roles {
			idx[r] = i
			objs[i] = v2.NewRole(r)
			objs[i].AddPermission(v2.NewPermission("", "/only-"+strconv.Itoa(i), "DO"))
			if c.Registered[i] {
				reg(i)
			}
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: "p" + strconv.Itoa(i), Tenant: "T", Role: r})
		}
		matrix := func(when string, rows []int) error {
			for _, i := range rows {
				cl := m.closure(c.Roles[i])
				for j, r := range c.Roles {
					want := cl[r]
					q := v2.Request{Principal: "p" + strconv.Itoa(i), Tenant: "T", Namespace: "N", Resource: "/only-" + strconv.Itoa(j), Action: "DO"}
					ctx.Queries++
					if got := a.Authorize(q); got != want {
						return fmt.Errorf("%s: holder of role %q has the permission of %q: %v, reachable: %v", when, c.Roles[i], r, got, want)
					}
					if n <= 10 {
						if got, want := a.Can(q, r), want || i == j; got != want {
							return fmt.Errorf("%s: holder of role %q Can(%q): %v, reachable: %v", when, c.Roles[i], r, got, want)
						}
					}
				}
			}
			return nil
		}
		all := make([]int, n)
		for i := range all {
			all[i] = i
		}
		for k, e := range c.Edges {
			if len(e) < 2 {
				continue
			}
			cyc := false
			for _, ch := range e[1:] {
				cyc = cyc || m.reaches(ch, e[0])
			}
			err := a.AddChildRole(e[0], e[1:]...)
			if (err != nil) != cyc {
				return fmt.Errorf("edge %d: AddChildRole(%q): error %v, closes a cycle: %v", k, e, err, cyc)
			}
			if cyc {
				ctx.Label("edge refused")
				ctx.NonTrivial()
			} else {
				m.edges[e[0]] = append(m.edges[e[0]], e[1:]...)
			}
			if n <= 10 {
				if err := matrix(fmt.Sprintf("after edge %d", k), all); err != nil {
					return err
				}
			}
		}
		for _, i := range c.Late {
			if i < n {
				reg(i)
				ctx.Label("role registered late")
			}
		}
		rows := all
		if n > 25 {
			rows = []int{0, n / 2, n - 2, n - 1}
			ctx.Label("over 25 roles")
		}
		for i := range c.Roles {
			cl := m.closure(c.Roles[i])
			for r := range cl {
				for _, s := range m.edges[r] {
					if r != c.Roles[i] && cl[s] {
						ctx.Label("inherited over two edges")
						ctx.NonTrivial()
					}
				}
			}
		}
		return matrix("at the end", rows)
	})

// ---------------------------------------------------------------- C04: only the current configuration counts

func genV2History(t *rapid.T) v2Case {
	x := newV2Gen(t)
	x.setup()
	if x.g.P(1) && x.g.P(25) {
		x.bulk()
	}
	x.history(4, 24, 30)
	x.probes(x.g.Int(3, 8), 30)
	return x.c
}

// rebuild makes an authorizer that holds what the model holds now, and never
// held anything else.
func (w *v2World) rebuild(reverse bool) (*v2.Authorizer, error) {
	a := v2.NewAuthorizer()
	a.SetDefaultTenant(w.m.def)
	made := map[*v2mTenant]*v2.Tenant{}
	var make1 func(t *v2mTenant) *v2.Tenant
	make1 = func(t *v2mTenant) *v2.Tenant {
		if r := made[t]; r != nil {
			return r
		}
		r := v2.NewTenant(t.id)
		made[t] = r
		for _, ns := range sortedKeys(t.ns) {
			r.AddNamespace(ns, ns == t.def)
			for _, s := range sortedKeys(t.ns[ns]) {
				if err := r.AddScopeToNamespace(ns, v2.NewScope(s)); err != nil {
					panic(err)
				}
			}
		}
		r.DefaultNS = t.def
		if t.inactive {
			r.Status = v2.TenantStatusBlocked
		}
		for _, ch := range sortedKeys(t.children) {
			r.AddChildTenant(make1(t.children[ch]))
		}
		return r
	}
	for _, id := range sortedKeys(w.m.tenants) {
		a.AddTenant(make1(w.m.tenants[id]))
	}
	for _, n := range sortedKeys(w.m.roles) {
		r := v2.NewRole(n)
		for _, p := range sortedKeys(w.m.roles[n].perms) {
			// "resource action" is stored as one string
			r.Permissions[p] = struct{}{}
		}
		a.AddRole(r)
	}
	for _, parent := range sortedKeys(w.m.edges) {
		if err := a.AddChildRole(parent, w.m.edges[parent]...); err != nil {
			return nil, fmt.Errorf("rebuilding: %w", err)
		}
	}
	n := len(w.m.prs)
	for i := range w.m.prs {
		p := w.m.prs[i]
		if reverse {
			p = w.m.prs[n-1-i]
		}
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: p.Principal, Tenant: p.Tenant, Namespace: p.Namespace, Scope: p.Scope, Role: p.Role, ManageChildTenant: p.Manage, Expiry: p.expiry})
	}
	return a, nil
}

var _ = Register("C04",
	"histories with queries, removals and replacements interleaved; oracle: a second authorizer built directly in the final configuration answers the probes alike, answers do not depend on being asked before, and a removal takes effect at once (reference decision before and after each one); non-trivial: something was taken away again (assignment, permission, status, role or tenant object replaced) and the probes have both answers",
	2, genV2History, func(c v2Case, ctx *Ctx) error {
		w := newV2World(&c)
		took := false
		for i, o := range c.Ops {
			if o.K == "ask" && o.R != nil {
				w.real.ask(*o.R)
				continue
			}
			before := len(w.m.prs)
			spins := i+1 < len(c.Ops) && c.Ops[i+1].K == "spin"
			if o.K == "churn" {
				if err := w.churn(o, ctx); err != nil {
					return fmt.Errorf("op %d (%s): %w", i, o.K, err)
				}
			}
			if o.K == "unassign" || o.K == "unperm" || spins {
				// warm whatever could be cached
				for _, q := range c.Probes {
					w.real.ask(q)
				}
			}
			if err := w.apply(o); err != nil {
				if err == errSkip {
					continue
				}
				return fmt.Errorf("op %d: %w", i, err)
			}
			if o.K == "unassign" && len(w.m.prs) < before || o.K == "unperm" {
				took = true
				ctx.Label("took away: " + o.K)
			}
			if took && o.K == "spin" || !spins && (o.K == "unassign" && len(w.m.prs) < before || o.K == "unperm") {
				for k, q := range append(append(w.around(o, true), w.around(o, false)...), c.Probes...) {
					if _, err := w.compare(q, ctx); err != nil {
						return fmt.Errorf("right after op %d (%s), question %d: %w", i, o.K, k, err)
					}
				}
			}
			if o.K == "status" && o.N != 0 {
				took = true
			}
		}
		var answers []bool
		for _, q := range c.Probes {
			answers = append(answers, w.real.ask(q))
		}
		for pass := 0; pass < 2; pass++ {
			b, err := w.rebuild(pass == 1)
			if err != nil {
				return err
			}
			for i, q := range c.Probes {
				ctx.Queries++
				fresh := (&v2Real{a: b}).ask(q)
				if fresh != answers[i] {
					return fmt.Errorf("probe %s: %v after the history, %v from an authorizer built in the same final configuration", js(q), answers[i], fresh)
				}
				if again := w.real.ask(q); again != answers[i] {
					return fmt.Errorf("probe %s: %v, then %v when asked again", js(q), answers[i], again)
				}
			}
		}
		yes, no := 0, 0
		for _, x := range answers {
			if x {
				yes++
			} else {
				no++
			}
		}
		ctx.Label("granted probes=%v denied=%v", yes > 0, no > 0)
		if took && yes > 0 && no > 0 {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C05: expiry on a clock the harness owns

type v2ExpCase struct {
	Case v2Case
	Acts []v2ExpAct
}

type v2ExpAct struct {
	K    string // "sleep", "setExpiry", "setDur", "setDurString", "setDurBad", "clear", "op"
	N    int64  `json:",omitempty"` // nanoseconds
	I    int    `json:",omitempty"` // which assignment / probe
	S    string `json:",omitempty"`
	Zone int    `json:",omitempty"`
	O    *v2Op  `json:",omitempty"` // a configuration step between the others
}

var expSteps = []int64{1, 2, 999, 1e3, 1e6, 5e8, 1e9 - 1, 1e9, 1e9 + 1, 6e10, 36e11, 24 * 36e11, 400 * 24 * 36e11}

func genV2Exp(t *rapid.T) v2ExpCase {
	x := newV2Gen(t)
	g := x.g
	x.setup()
	dur := func() int64 {
		d := Pick(g, expSteps)
		if g.P(30) {
			d = d*int64(g.Int(1, 3)) + int64(g.Int(0, 2)) - 1
		}
		return d
	}
	// give most assignments an expiry of their own
	for i := range x.c.Ops {
		for j := range x.c.Ops[i].PL {
			p := &x.c.Ops[i].PL[j]
			p.Expiry = nil
			if g.P(55) {
				e := dur()
				if g.P(15) {
					e = -e
				}
				p.Expiry = &e
			}
		}
	}
	x.probes(g.Int(2, 5), 35)
	c := v2ExpCase{Case: x.c}
	n := g.Int(2, 12)
	for i := 0; i < n; i++ {
		a := v2ExpAct{I: g.Int(0, max(0, len(x.prs)-1))}
		switch k := g.Int(0, 21); {
		case k < 8:
			a.K, a.N = "sleep", dur()
		case k < 11:
			a.K, a.N, a.Zone = "setExpiry", dur(), g.Int(-12, 12)
			if g.P(25) {
				a.N = -a.N
			}
			if g.P(10) {
				a.N = 0
			}
		case k < 13:
			a.K, a.N = "setDur", dur()
			if g.P(15) {
				a.N = -a.N
			}
		case k < 16:
			a.K, a.S = "setDurString", Pick(g, []string{"1ns", "1s", "1.5s", "1h", "999ms", "2m3s", "24h", "-1s", "0", "", "1", "1d", "x", "1 s", "1h ", "∞"})
		case k < 17:
			a.K, a.N = "setDurBad", int64(g.Int(0, 3))
		case k < 18:
			a.K = "clear"
		case k < 20 && len(x.prs) > 0:
			a.K, a.O = "op", &v2Op{K: "again"}
			p := Pick(g, x.prs)
			switch j := g.Int(0, 9); {
			case j < 4:
				a.O.P = &p
			case j < 6:
				a.O.K = "unassign"
				p = x.criteria()
				a.O.P = &p
			default:
				a.O.K = "assign"
				if g.P(50) {
					p = x.drawPR()
				}
				p.Expiry = nil
				if g.P(60) {
					e := dur()
					p.Expiry = &e
				}
				a.O.PL = []v2PR{p}
				x.prs = append(x.prs, p)
			}
		default:
			a.K = "toExpiry" // to the very instant an assignment expires, plus N-1 ns
			a.N = int64(g.Int(0, 2))
		}
		c.Acts = append(c.Acts, a)
	}
	return c
}

func evalV2Exp(c v2ExpCase, ctx *Ctx) (err error) {
	synctest.Test(ctx.T, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
			}
		}()
		err = evalV2ExpIn(c, ctx)
	})
	return
}

func evalV2ExpIn(c v2ExpCase, ctx *Ctx) error {
	w := newV2World(&c.Case)
	for i, o := range c.Case.Ops {
		if err := w.apply(o); err != nil && err != errSkip {
			return fmt.Errorf("op %d: %w", i, err)
		}
	}
	last := map[int]bool{}
	yes := false
	probe := func(when string) error {
		for i, q := range c.Case.Probes {
			want, err := w.compare(q, ctx)
			if err != nil {
				return fmt.Errorf("%s (%v after the start), probe %d: %w", when, time.Since(w.start), i, err)
			}
			if prev, ok := last[i]; ok && prev != want {
				ctx.Label("decision changed to %v", want)
				ctx.NonTrivial()
			}
			last[i] = want
			yes = yes || want
		}
		now := time.Now()
		for i, p := range w.real.prs {
			if got, want := p.IsExpired(), !w.mprs[i].live(now); got != want {
				return fmt.Errorf("%s: IsExpired of assignment %d = %v, want %v", when, i, got, want)
			}
		}
		return nil
	}
	if err := probe("at the start"); err != nil {
		return err
	}
	for i, a := range c.Acts {
		if a.K == "op" {
			if a.O == nil {
				continue
			}
			if err := w.apply(*a.O); err != nil && err != errSkip {
				return fmt.Errorf("act %d: %w", i, err)
			}
		} else if a.K != "sleep" && (a.I < 0 || a.I >= len(w.real.prs)) {
			continue
		}
		set := func(e time.Time) { w.mprs[a.I].expiry = &e }
		now := time.Now()
		switch a.K {
		case "sleep":
			if a.N > 0 {
				time.Sleep(time.Duration(a.N))
			}
		case "toExpiry":
			if e := w.mprs[a.I].expiry; e != nil {
				if d := e.Sub(now) + time.Duration(a.N-1); d > 0 {
					time.Sleep(d)
					ctx.Label("expiry instant %+d ns", a.N-1)
				}
			}
		case "setExpiry":
			e := now.Add(time.Duration(a.N)).In(time.FixedZone("z", a.Zone*3600))
			err := w.real.prs[a.I].SetExpiry(e)
			if (err != nil) != (a.N < 0) {
				return fmt.Errorf("act %d: SetExpiry(now%+d ns): %v", i, a.N, err)
			}
			if err == nil {
				set(e)
			}
		case "setDur":
			if err := w.real.prs[a.I].SetExpiryDuration(time.Duration(a.N)); err != nil {
				return fmt.Errorf("act %d: SetExpiryDuration(%v): %v", i, time.Duration(a.N), err)
			}
			set(now.Add(time.Duration(a.N)))
		case "setDurString":
			d, perr := time.ParseDuration(a.S)
			err := w.real.prs[a.I].SetExpiryDuration(a.S)
			if (err != nil) != (perr != nil) {
				return fmt.Errorf("act %d: SetExpiryDuration(%q): %v", i, a.S, err)
			}
			if perr == nil {
				set(now.Add(d))
				ctx.Label("expiry from string")
			} else {
				ctx.Label("bad duration refused")
			}
		case "setDurBad":
			bad := []any{3, 2.5, nil, []string{"1h"}}[a.N%4]
			if err := w.real.prs[a.I].SetExpiryDuration(bad); err == nil {
				return fmt.Errorf("act %d: SetExpiryDuration(%#v) reports success", i, bad)
			}
			ctx.Label("bad duration refused")
		case "clear":
			w.real.prs[a.I].ClearExpiry()
			w.mprs[a.I].expiry = nil
		}
		if err := probe(fmt.Sprintf("after act %d (%s %d %s)", i, a.K, a.N, a.S)); err != nil {
			return err
		}
	}
	return nil
}

var _ = Register("C05",
	"configurations with expiries (nanoseconds to a year, past ones, other time zones) and acts on a fake clock: waiting, waiting to one ns around an expiry, SetExpiry, SetExpiryDuration (durations, strings, junk), ClearExpiry, assignments added, taken away and added again; oracle: reference decision at the current instant; non-trivial: the passing of time or a change of expiry changes a decision",
	1, genV2Exp, evalV2Exp)

// ---------------------------------------------------------------- C07: isolation

type v2IsoCase struct {
	Base  v2Case
	Noise []v2Op // about others only; indices into the extended object lists
	At    []int  // noise op i goes before base op At[i]
	NT    []v2TenantDef
	NR    []string
}

func genV2Iso(t *rapid.T) v2IsoCase {
	x := newV2Gen(t)
	g := x.g
	x.setup()
	for n := g.Int(0, 4); n > 0; n-- {
		x.mutate()
	}
	x.probes(g.Int(2, 6), 30)
	me := Pick(g, x.principals)
	c := v2IsoCase{Base: x.c}
	var ps []v2Req
	for _, p := range c.Base.Probes {
		p.Principal = me
		for _, pr := range x.prs {
			if pr.Principal == me && g.P(50) {
				p.Tenant, p.Namespace, p.Scope = pr.Tenant, pr.Namespace, pr.Scope
			}
		}
		if p.Tenant == "" {
			p.Tenant = Pick(g, x.tids)
		}
		ps = append(ps, p)
	}
	c.Base.Probes = ps
	// the others: principals, tenants and roles that the base never mentions,
	// but that look like those it does
	similar := g.similar
	var otherP []string
	for _, p := range x.principals {
		if p != me {
			otherP = append(otherP, p)
		}
	}
	otherP = append(otherP, similar(me, x.principals), "somebody-else")
	anyP := otherP // assignments can also be nobody's
	if me != "" {
		anyP = append(append([]string{}, otherP...), "")
	}
	nT := len(c.Base.Tenants)
	nR := len(c.Base.Roles)
	known := append([]string{}, x.tids...)
	for i := g.Int(1, 3); i > 0; i-- {
		id := similar(Pick(g, x.tids), known)
		known = append(known, id)
		c.NT = append(c.NT, v2TenantDef{ID: id, NS: Pick(g, x.nss)})
	}
	conf := -1 // what reads like me in my tenant
	var confP, confT string
	if len(ps) > 0 && g.P(30) {
		var ok bool
		mine := Pick(g, ps).Tenant
		for _, pr := range x.prs {
			if pr.Principal == me && pr.Tenant != "" && g.P(40) {
				mine = pr.Tenant
			}
		}
		if confP, confT, ok = g.Confusable(me, mine); ok {
			otherP = append(otherP, confP)
			conf = slices.Index(x.tids, confT)
			if conf < 0 {
				if !contains(known, confT) {
					known = append(known, confT)
					c.NT = append(c.NT, v2TenantDef{ID: confT, NS: Pick(g, x.nss)})
				}
				conf = nT + slices.IndexFunc(c.NT, func(d v2TenantDef) bool { return d.ID == confT })
			}
		}
	}
	knownR := append([]string{}, x.roleNames...)
	for i := g.Int(1, 3); i > 0; i-- {
		id := similar(Pick(g, x.roleNames), knownR)
		knownR = append(knownR, id)
		c.NR = append(c.NR, id)
	}
	noiseT := func() int { return nT + g.Int(0, len(c.NT)-1) }
	noiseR := func() int { return nR + g.Int(0, len(c.NR)-1) }
	allR := append(append([]string{}, x.roleNames...), c.NR...)
	if conf >= 0 {
		p := x.drawPR()
		p.Principal, p.Tenant, p.Role, p.Manage = confP, confT, Pick(g, allR), g.P(75)
		if conf >= nT {
			c.Noise = append(c.Noise, v2Op{K: "tenant", H: conf})
			c.At = append(c.At, len(c.Base.Ops))
		}
		c.Noise = append(c.Noise, v2Op{K: "assign", PL: []v2PR{p}})
		c.At = append(c.At, len(c.Base.Ops))
	}
	n := g.Int(3, 16)
	for i := 0; i < n; i++ {
		var o v2Op
		switch k := g.Int(0, 14); k {
		case 0:
			o = v2Op{K: "tenant", H: noiseT()}
		case 1:
			o = v2Op{K: "ns", H: noiseT(), A: Pick(g, x.nss), F: g.P(50)}
		case 2:
			o = v2Op{K: "scope", H: noiseT(), A: Pick(g, x.nss), S: []string{Pick(g, x.scopes)}}
		case 3: // other tenants above mine, or beside them
			o = v2Op{K: "child", H: noiseT(), L: []int{g.Int(0, len(x.tids)-1)}}
		case 4:
			o = v2Op{K: "status", H: noiseT(), N: g.Int(0, 4)}
		case 5:
			o = v2Op{K: "role", H: noiseR()}
		case 6:
			o = v2Op{K: "perm", H: noiseR(), S: []string{Pick(g, []string{"*", "/a", g.PermResource()}), Pick(g, []string{"*", "GET", "POST"})}}
		case 7: // a role above one of mine gains mine's permissions, not the other way round
			o = v2Op{K: "edge", A: Pick(g, c.NR), S: []string{Pick(g, x.roleNames)}}
		case 8, 9, 10: // somebody else, in my tenants, with any role
			p := x.drawPR()
			p.Principal = Pick(g, anyP)
			p.Role = Pick(g, allR)
			p.Manage = g.P(60)
			o = v2Op{K: "assign", PL: []v2PR{p}}
		case 11: // me, in other tenants
			p := x.drawPR()
			p.Principal, p.Tenant = me, c.NT[g.Int(0, len(c.NT)-1)].ID
			p.Role = Pick(g, allR)
			p.Manage = g.P(60)
			o = v2Op{K: "assign", PL: []v2PR{p}}
		case 12, 13: // removals that name somebody else, another tenant, or another role
			p := x.criteria()
			switch g.Int(0, 2) {
			case 0:
				p.Principal = Pick(g, otherP)
				if p.Principal == "" { // would name everybody
					p.Role = Pick(g, c.NR)
				}
			case 1:
				p.Tenant = c.NT[g.Int(0, len(c.NT)-1)].ID
			default:
				p.Role = Pick(g, c.NR)
			}
			o = v2Op{K: "unassign", P: &p}
		default:
			r := x.request(g.P(40))
			o = v2Op{K: "ask", R: &r}
		}
		c.Noise = append(c.Noise, o)
		at := g.Int(0, len(c.Base.Ops))
		if g.P(50) {
			at = len(c.Base.Ops)
		}
		c.At = append(c.At, at)
	}
	if !raceOn && g.P(3) { // a crowd of others
		row := x.drawPR()
		row.Role, row.Manage = Pick(g, allR), g.P(60)
		o := v2Op{K: "crowd", A: Pick(g, []string{"above", "rows", "rows", "gone", "roles", "tenants", "mine", "mine"}), B: me, H: g.Int(0, len(x.tids)-1), N: g.Big(), S: []string{Pick(g, x.roleNames)}, P: &row}
		if g.P(10) {
			o.N = g.Huge()
		}
		c.Noise = append(c.Noise, o)
		c.At = append(c.At, Pick(g, []int{0, len(c.Base.Ops), len(c.Base.Ops)}))
	}
	return c
}

// crowd adds many others, of which no question is about any.
func (w *v2World) crowd(o v2Op) {
	if o.P == nil || len(o.S) != 1 || o.H < 0 || o.H >= len(w.real.tenants) {
		return
	}
	a := w.real.a
	for i := 0; i < o.N; i++ {
		id := "crowd" + strconv.Itoa(i)
		pr := &v2.PrincipalRole{Principal: id, Tenant: o.P.Tenant, Namespace: o.P.Namespace, Scope: o.P.Scope, Role: o.P.Role, ManageChildTenant: o.P.Manage}
		switch o.A {
		case "above", "tenants":
			t := v2.NewTenant(id, "crowd")
			if o.A == "above" {
				t.AddChildTenant(w.real.tenants[o.H])
			}
			a.AddTenant(t)
		case "rows", "gone":
			a.AddPrincipalRole(pr)
			if o.A == "gone" {
				_ = a.RemovePrincipalRole(v2.PrincipalRole{Principal: id})
			}
		case "mine":
			pr.Principal, pr.Tenant = o.B, id
			a.AddPrincipalRole(pr)
		case "roles":
			a.AddRole(v2.NewRole(id))
			_ = a.AddChildRole(id, o.S...)
		}
	}
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

var _ = Register("C07",
	"a configuration, and the same with operations about others mixed in (other principals in the same tenants, the principal itself in unrelated tenants, tenants above, roles above, removals naming others, queries), ids chosen similar; oracle: every decision about the principal in its tenants is the same with and without; non-trivial: some probe is granted and some denied, and the noise holds an assignment or removal",
	2, genV2Iso, func(c v2IsoCase, ctx *Ctx) error {
		if len(c.At) != len(c.Noise) {
			return nil
		}
		base := c.Base
		full := c.Base
		full.Tenants = append(append([]v2TenantDef{}, base.Tenants...), c.NT...)
		full.Roles = append(append([]string{}, base.Roles...), c.NR...)
		me := ""
		for _, p := range base.Probes {
			me = p.Principal
		}
		wa, wb := newV2World(&base), newV2World(&full)
		run := func(w *v2World, o v2Op) {
			if o.K == "crowd" {
				w.crowd(o)
				return
			}
			if o.K == "ask" && o.R != nil {
				w.real.ask(*o.R)
				return
			}
			_ = w.apply(o) // what each step reports is C02's and C03's business
		}
		for i := 0; i <= len(base.Ops); i++ {
			for k, at := range c.At {
				if at == i {
					run(wb, c.Noise[k])
				}
			}
			if i < len(base.Ops) {
				run(wa, base.Ops[i])
				run(wb, base.Ops[i])
			}
		}
		yes, no := 0, 0
		for i, q := range base.Probes {
			ctx.Queries++
			a, b := wa.real.ask(q), wb.real.ask(q)
			if a != b {
				return fmt.Errorf("probe %d %s: %v, but %v once others are configured", i, js(q), a, b)
			}
			if a {
				yes++
			} else {
				no++
			}
		}
		_ = me
		ctx.Label("granted=%v denied=%v", yes > 0, no > 0)
		for _, o := range c.Noise {
			if (o.K == "assign" || o.K == "unassign") && yes > 0 && no > 0 {
				ctx.NonTrivial()
			}
		}
		return nil
	})

// ---------------------------------------------------------------- C09: audit log

// recHandler keeps the records at or above its level, with the attributes of
// the loggers derived from it.
type recHandler struct {
	mu    sync.Mutex
	level slog.Level
	recs  []slog.Record
}

func (h *recHandler) Enabled(_ context.Context, l slog.Level) bool { return l >= h.level }
func (h *recHandler) Handle(_ context.Context, r slog.Record) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	h.recs = append(h.recs, r.Clone())
	return nil
}
func (h *recHandler) WithAttrs(as []slog.Attr) slog.Handler { return recDerived{h: h}.WithAttrs(as) }
func (h *recHandler) WithGroup(name string) slog.Handler    { return recDerived{h: h}.WithGroup(name) }

// elsewhere counts the outcome records that go to the default logger of the
// process, where they do not belong.
var elsewhere = sync.OnceValue(func() *atomic.Int64 {
	n := new(atomic.Int64)
	slog.SetDefault(slog.New(countHandler{n}))
	return n
})

type countHandler struct{ n *atomic.Int64 }

func (h countHandler) Enabled(context.Context, slog.Level) bool { return true }
func (h countHandler) Handle(_ context.Context, r slog.Record) error {
	if strings.HasPrefix(r.Message, "Authorization ") || strings.HasPrefix(r.Message, "Failed authorization") {
		h.n.Add(1)
	}
	return nil
}
func (h countHandler) WithAttrs([]slog.Attr) slog.Handler { return h }
func (h countHandler) WithGroup(string) slog.Handler      { return h }

type recDerived struct {
	h      *recHandler
	attrs  []slog.Attr
	prefix string
}

func (d recDerived) named(as []slog.Attr) []slog.Attr {
	out := make([]slog.Attr, len(as))
	for i, a := range as {
		out[i] = slog.Attr{Key: d.prefix + a.Key, Value: a.Value}
	}
	return out
}
func (d recDerived) Enabled(ctx context.Context, l slog.Level) bool { return d.h.Enabled(ctx, l) }
func (d recDerived) Handle(ctx context.Context, r slog.Record) error {
	n := slog.NewRecord(r.Time, r.Level, r.Message, r.PC)
	n.AddAttrs(d.attrs...)
	r.Attrs(func(a slog.Attr) bool {
		n.AddAttrs(d.named([]slog.Attr{a})...)
		return true
	})
	return d.h.Handle(ctx, n)
}
func (d recDerived) WithAttrs(as []slog.Attr) slog.Handler {
	d.attrs = append(slices.Clip(d.attrs), d.named(as)...)
	return d
}
func (d recDerived) WithGroup(name string) slog.Handler {
	d.prefix += name + "."
	return d
}

var _ = Register("C09",
	"histories as in C02 with Authorize and Can requests and a recording audit logger; oracle: every query leaves records that carry the request's own fields, exactly one of them the outcome, saying granted exactly when the answer is true, and configuration leaves none; the same history without a logger answers alike; non-trivial: both outcomes recorded",
	1, genV2(40), func(c v2Case, ctx *Ctx) error {
		h := &recHandler{level: [...]slog.Level{slog.LevelInfo, slog.LevelWarn, slog.LevelDebug}[len(c.Ops)%3]}
		w := newV2World(&c, slog.New(h))
		quiet := newV2World(&c)
		outcomes := map[bool]int{}
		astray := elsewhere().Load()
		ask := func(q v2Req) error {
			h.recs = nil
			ctx.Queries++
			got := w.real.ask(q)
			if other := quiet.real.ask(q); other != got {
				return fmt.Errorf("%s: %v with an audit logger, %v without", js(q), got, other)
			}
			outcome := 0
			for k, r := range h.recs {
				want := map[string]string{}
				for f, v := range map[string]string{"principal": q.Principal, "tenant": q.Tenant, "namespace": q.Namespace, "scope": q.Scope, "resource": q.Resource, "action": q.Action} {
					if v != "" {
						want[f] = v
					}
				}
				stamp := false
				var bad error
				r.Attrs(func(a slog.Attr) bool {
					if a.Key == "timestamp" {
						stamp = true
						return true
					}
					if v, ok := want[a.Key]; !ok || a.Value.String() != v {
						bad = fmt.Errorf("record %q of %s says %s=%q", r.Message, js(q), a.Key, a.Value.String())
						return false
					}
					delete(want, a.Key)
					return true
				})
				if bad != nil {
					return bad
				}
				if len(want) > 0 || !stamp {
					return fmt.Errorf("record %q of %s lacks %v (timestamp: %v)", r.Message, js(q), want, stamp)
				}
				switch r.Message {
				case "Authorization granted":
					outcome++
					if !got {
						return fmt.Errorf("%s answered %v but logged %q (record %d of %d)", js(q), got, r.Message, k+1, len(h.recs))
					}
				case "Authorization failed", "Failed authorization due to invalid tenant":
					outcome++
					if got {
						return fmt.Errorf("%s answered %v but logged %q (record %d of %d)", js(q), got, r.Message, k+1, len(h.recs))
					}
				}
			}
			if elsewhere().Load() != astray {
				return fmt.Errorf("%s left a record in the default logger of the process", js(q))
			}
			if outcome != 1 {
				return fmt.Errorf("%s answered %v and left %d outcome records of %d", js(q), got, outcome, len(h.recs))
			}
			outcomes[got]++
			ctx.Label("logged=%v can=%v", got, q.Can)
			return nil
		}
		for i, o := range c.Ops {
			if o.K == "ask" && o.R != nil {
				if err := ask(*o.R); err != nil {
					return fmt.Errorf("op %d: %w", i, err)
				}
				continue
			}
			h.recs = nil
			_ = w.apply(o)
			_ = quiet.apply(o)
			if len(h.recs) > 0 {
				return fmt.Errorf("op %d (%s) left %d audit records", i, o.K, len(h.recs))
			}
		}
		for _, q := range c.Probes {
			if err := ask(q); err != nil {
				return err
			}
		}
		if outcomes[true] > 0 && outcomes[false] > 0 {
			ctx.NonTrivial()
		}
		return nil
	})

// outcome of a record ("" if it is not an outcome) and its fields, without the
// time it was written
func recordText(r slog.Record) (outcome, fields string) {
	switch r.Message {
	case "Authorization granted":
		outcome = "granted"
	case "Authorization failed", "Failed authorization due to invalid tenant":
		outcome = "failed"
	}
	fs := []string{}
	r.Attrs(func(a slog.Attr) bool {
		if a.Key != "timestamp" {
			fs = append(fs, fmt.Sprintf("%s=%q", a.Key, a.Value.String()))
		}
		return true
	})
	sort.Strings(fs)
	return outcome, strings.Join(fs, " ")
}

var _ = Register("C09",
	"a configuration as in C02 and its requests, asked one at a time and then several times each from several goroutines at once, with a recording audit logger; oracle: the concurrent run leaves exactly the outcome records of the single requests, each as often as it was asked, and no other record has fields that no request has; non-trivial: at least two different requests with different records",
	3, genV2(40), func(c v2Case, ctx *Ctx) error {
		h := &recHandler{}
		w := newV2World(&c, slog.New(h))
		for _, o := range c.Ops {
			_ = w.apply(o)
		}
		const threads, rounds = 4, 6
		want, fields := map[string]int{}, map[string]bool{}
		var answers []bool
		for _, q := range c.Probes {
			h.recs = nil
			answers = append(answers, w.real.ask(q))
			for _, r := range h.recs {
				o, f := recordText(r)
				fields[f] = true
				if o != "" {
					want[o+" "+f] += threads * rounds
				}
			}
		}
		if len(want) > 1 {
			ctx.NonTrivial()
		}
		h.recs = nil
		var wrong atomic.Int64
		wrong.Store(-1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		for k := 0; k < threads; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := 0; r < rounds; r++ {
					for j := range c.Probes {
						i := (j + k + r) % len(c.Probes)
						if w.real.ask(c.Probes[i]) != answers[i] {
							wrong.Store(int64(i))
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		ctx.Queries += threads * rounds * len(c.Probes)
		if i := wrong.Load(); i >= 0 {
			return fmt.Errorf("%s answered differently when asked concurrently", js(c.Probes[i]))
		}
		got := map[string]int{}
		for _, r := range h.recs {
			o, f := recordText(r)
			if !fields[f] {
				return fmt.Errorf("concurrent requests left a record %q with %s, as no request has", r.Message, f)
			}
			if o != "" {
				got[o+" "+f]++
			}
		}
		for k, n := range want {
			if got[k] != n {
				return fmt.Errorf("concurrent requests left %d records %s, of %d", got[k], k, n)
			}
		}
		for k, n := range got {
			if want[k] == 0 {
				return fmt.Errorf("concurrent requests left %d records %s that no request leaves", n, k)
			}
		}
		return nil
	})
