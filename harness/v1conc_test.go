package harness

import (
	"fmt"
	"slices"
	"sort"
	"sync"
	"sync/atomic"

	v1 "github.com/oarkflow/permission/v1"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C26: v1 asked by many at once

type v1ManyCase struct {
	v1Case
	Threads int
	Rounds  int
	Stops   []int // also asked before these steps
}

func genV1Many(t *rapid.T) v1ManyCase {
	x := v1QueryGen(t)
	g := x.g
	for k := g.Int(3, 9); k > 0; k-- {
		x.c.Probes = append(x.c.Probes, x.request(g.P(60)))
	}
	c := v1ManyCase{v1Case: x.c}
	c.Threads = g.Int(2, 6)
	c.Rounds = g.Int(1, 4)
	for k := g.Int(0, 2); k > 0; k-- {
		c.Stops = append(c.Stops, g.Int(0, len(c.Ops)))
	}
	return c
}

func sortedClone(s []string) []string {
	s = slices.Clone(s)
	sort.Strings(s)
	return s
}

// answers is everything v1 says about the questions of the case, as text in no
// particular order of rows. What it is given it overwrites, as a caller may,
// if it is to.
func (w *v1World) answers(from int, spoil bool) []string {
	u := w.u
	var out []string
	add := func(name string, v any) { out = append(out, name+" "+js(v)) }
	rows := func(name string, rs []v1.TenantPrincipal) {
		add(name, rows1(rs))
		for i := 0; spoil && i < len(rs); i++ {
			rs[i] = v1.TenantPrincipal{RoleID: "spoiled"}
		}
	}
	texts := func(ss []string) []string { // a copy in order; the original is spoiled
		own := sortedClone(ss)
		for i := 0; spoil && i < len(ss); i++ {
			ss[i] = "spoiled"
		}
		return own
	}
	perms := func(m map[string][]v1.Attribute) map[string][]string {
		own := attrStrings(m)
		if !spoil {
			return own
		}
		for g := range m {
			for i := range m[g] {
				m[g][i] = *v1.NewAttribute("*", "*")
			}
			if len(g)%2 == 0 {
				delete(m, g)
			}
		}
		if m != nil {
			m["spoiled"] = []v1.Attribute{*v1.NewAttribute("*", "*")}
		}
		return own
	}
	n := len(w.c.Ask)
	res := make([][]string, n)
	for k := 0; k < n; k++ {
		i := (from + k) % n
		a := w.c.Ask[i]
		t, p := a[0], a[1]
		out = nil
		rows(fmt.Sprintf("GetPrincipalRoles(%q, %q)", t, p), u.GetPrincipalRoles(t, p))
		rows(fmt.Sprintf("GetTenantRoles(%q)", t), u.GetTenantRoles(t))
		rows(fmt.Sprintf("GetPrincipalRolesByTenant(%q)", t), u.GetPrincipalRolesByTenant(t))
		irs := u.GetImplicitPrincipalRoles(t, p)
		add("GetImplicitPrincipalRoles", distinct(rows1(irs)))
		for i := 0; spoil && i < len(irs); i++ {
			irs[i] = v1.TenantPrincipal{RoleID: "spoiled"}
		}
		ts, err := u.GetTenantsForPrincipal(p)
		add(fmt.Sprintf("GetTenantsForPrincipal(%q)", p), []any{texts(ts), err != nil})
		ss, err := u.GetScopesForPrincipal(p)
		add(fmt.Sprintf("GetScopesForPrincipal(%q)", p), []any{distinct(texts(ss)), err != nil})
		ss, err = u.GetTenantScopesForPrincipal(t, p)
		add(fmt.Sprintf("GetTenantScopesForPrincipal(%q, %q)", t, p), []any{distinct(texts(ss)), err != nil})
		var have []string
		for _, pp := range u.GetPermissionsForPrincipal(t, p) {
			have = append(have, js([]any{pp.TenantPrincipal, perms(pp.Permissions)}))
		}
		sort.Strings(have)
		add(fmt.Sprintf("GetPermissionsForPrincipal(%q, %q)", t, p), have)
		res[i] = out
	}
	out = nil
	for _, r := range res {
		out = append(out, r...)
	}
	m := len(w.c.Probes)
	got := make([]bool, m)
	for k := 0; k < m; k++ {
		i := (from + k) % m
		got[i] = w.ask(w.c.Probes[i])
	}
	for i, q := range w.c.Probes {
		add("Authorize("+js(q)+")", got[i])
	}
	for i, t := range w.rt {
		var ids []string
		ds := t.GetDescendantTenants()
		for i, d := range ds {
			ids = append(ids, d.ID())
			if spoil {
				ds[i] = nil
			}
		}
		sort.Strings(ids)
		add("descendants of "+w.c.Tenants[i], ids)
	}
	for _, r := range w.c.Roles {
		ps, err := u.GetRolePermissions(r)
		add(fmt.Sprintf("GetRolePermissions(%q)", r), []any{perms(ps), err != nil})
	}
	add("Summary", u.Summary())
	return out
}

// set performs the first n steps, without asking anything on the way.
func (c *v1ManyCase) set(w *v1World, from, to int, ctx *Ctx) bool {
	for i := max(0, from); i < min(to, len(c.Ops)); i++ {
		if o := c.Ops[i]; o.K != "ask" {
			if w.runOne(i, o, ctx) != nil {
				return false
			}
		}
	}
	return true
}

var _ = Register("C26",
	"v1 managers configured as in C20 and, at one to three moments of that, asked for every decision and query by two to six goroutines at once, each starting somewhere else and overwriting what it is given; oracle: the answers that managers configured alike give one at a time; non-trivial: granted and denied requests, and over 4 rows",
	2, genV1Many, func(c v1ManyCase, ctx *Ctx) error {
		stops := append(slices.Clone(c.Stops), len(c.Ops))
		sort.Ints(stops)
		stops = slices.Compact(stops)
		// alone[k] is what is to be said at the k-th stop; an answer that varies
		// one at a time is not this property's business
		alone := make([][]string, len(stops))
		varies := make([]map[int]bool, len(stops))
		var last *v1World
		for try := 0; try < 2; try++ {
			w := newV1World(&c.v1Case)
			from := 0
			for k, to := range stops {
				if !c.set(w, from, to, ctx) {
					ctx.Label("set-up went wrong (not this property's business)")
					return nil
				}
				from = to
				for j := 0; j < 2; j++ {
					got := w.answers(j, false)
					if alone[k] == nil {
						alone[k], varies[k] = got, map[int]bool{}
						continue
					}
					for i, s := range got {
						if i >= len(alone[k]) || s != alone[k][i] {
							varies[k][i] = true
						}
					}
				}
			}
			last = w
		}
		threads := max(1, min(c.Threads, 16))
		var n atomic.Int64
		for round := 0; round < min(c.Rounds, 8); round++ {
			w := newV1World(&c.v1Case)
			from := 0
			for k, to := range stops {
				if !c.set(w, from, to, ctx) {
					ctx.Label("set-up went wrong (not this property's business)")
					return nil
				}
				from = to
				errs := make([]error, threads)
				var wg sync.WaitGroup
				start := make(chan struct{})
				for th := range errs {
					wg.Add(1)
					go func() {
						defer wg.Done()
						defer func() {
							if r := recover(); r != nil {
								errs[th] = fmt.Errorf("asked by several threads at once: panic: %v", r)
							}
						}()
						<-start
						for r := 0; r < 2; r++ {
							for i, s := range w.answers(th*3+r+round, true) {
								n.Add(1)
								if s != alone[k][i] && !varies[k][i] {
									errs[th] = fmt.Errorf("asked by several threads at once: %s; alone: %s", s, alone[k][i])
									return
								}
							}
						}
					}()
				}
				close(start)
				wg.Wait()
				for _, err := range errs {
					if err != nil {
						return err
					}
				}
			}
		}
		ctx.Queries += int(n.Load())
		yes, no := 0, 0
		for _, q := range c.Probes {
			if last.ask(q) {
				yes++
			} else {
				no++
			}
		}
		ctx.Label("%d threads", threads)
		ctx.Label("asked at %d moments", len(stops))
		if yes > 0 && no > 0 && len(last.m.rows) > 4 {
			ctx.NonTrivial()
		}
		return nil
	})
