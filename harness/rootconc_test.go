package harness

import (
	"fmt"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"

	"pgregory.net/rapid"

	permission "github.com/oarkflow/permission"
)

// ---------------------------------------------------------------- C17: concurrent use of the main package (race detector)

type rConcCase struct {
	Base    rCase
	Threads []rThread
	Shared  []string // ids every thread registers, with an object of its own
}

type rThread struct {
	Tenant, Role string
	Ops          []rOp
}

// Everything only adds, so an answer in flight lies between the answer on the
// base plus the thread's own steps and the answer on everything.
func genRConc(t *rapid.T) rConcCase {
	x := newRGen(t)
	g := x.g
	x.commuting(g.Int(1, 5), false)
	x.probes(2, 5, 60)
	c := rConcCase{Base: x.c, Shared: g.IDs(g.Int(0, 3), "shared", nil)}
	nT, nR := len(c.Base.Tenants), len(c.Base.Roles)
	for i, n := 0, g.Int(2, 5); i < n; i++ {
		is := strconv.Itoa(i)
		th := rThread{Tenant: "own-tenant" + is, Role: "own-role" + is}
		me := "own-principal" + is
		th.Ops = append(th.Ops, rOp{K: "regP", A: me}, rOp{K: "regT", H: nT + i}, rOp{K: "regR", H: nR + i})
		tenant := func() int {
			if g.P(75) {
				return g.Int(0, len(x.tids)-1)
			}
			return nT + i
		}
		role := func() string {
			if g.P(60) {
				return Pick(g, x.roleNames)
			}
			return th.Role
		}
		nsp := func() string {
			if g.P(70) {
				return Pick(g, x.nss)
			}
			return "own-ns" + is
		}
		scope := func() string {
			if g.P(70) {
				return Pick(g, x.scopes)
			}
			return "own-scope" + is
		}
		mine := &rGen{g: g, tids: x.tids, nss: x.nss, scopes: x.scopes, principals: []string{me}, roleNames: x.roleNames, groups: x.groups, perms: x.perms, edges: x.edges, kids: x.kids}
		var myPerms [][3]string
		for k := g.Int(3, 14); k > 0; k-- {
			var o rOp
			switch g.Int(0, 17) {
			case 0, 1:
				o = rOp{K: "assign", H: tenant(), A: me, S: []string{role()}, F: g.P(40)}
				mine.rows = append(mine.rows, rRow{T: tenantID(c.Base, th, o.H, nT), P: me, R: o.S[0], M: strconv.FormatBool(o.F)})
			case 2:
				o = rOp{K: "scopes", H: tenant(), A: me, S: []string{scope()}, F: g.P(40)}
				mine.rows = append(mine.rows, rRow{T: tenantID(c.Base, th, o.H, nT), P: me, S: o.S[0]})
			case 3:
				o = rOp{K: "pin", H: tenant(), A: nsp(), B: me, C: role()}
				mine.rows = append(mine.rows, rRow{T: tenantID(c.Base, th, o.H, nT), N: o.A, P: me, R: o.C})
			case 4:
				o = rOp{K: "tns", H: tenant(), S: []string{nsp()}}
			case 5:
				o = rOp{K: "tscope", H: tenant(), S: []string{scope()}}
			case 6:
				o = rOp{K: "tsn", H: tenant(), A: nsp(), B: scope()}
			case 7:
				o = rOp{K: "regN", A: "own-ns" + is}
			case 8:
				o = rOp{K: "regS", A: "own-scope" + is, F: g.P(30)}
			case 9, 10: // one more permission for a shared role, in a shared group
				h := g.Int(0, nR-1)
				if g.P(25) {
					h = nR + i
				}
				p := [3]string{Pick(g, x.groups), "/own" + is + "/" + strconv.Itoa(k), "DO"}
				myPerms = append(myPerms, p)
				o = rOp{K: "perm", H: h, A: p[0], S: []string{p[1], p[2]}}
			case 11: // the group is this thread's: the role keeps the first of an id
				o = rOp{K: "group", H: g.Int(0, nR-1), A: "own-group" + is, S: []string{"/own" + is, "DO"}}
			case 12:
				o = rOp{K: "rdesc", H: g.Int(0, nR-1), L: []int{nR + i}}
				if g.P(50) {
					o.H, o.L[0] = o.L[0], o.H
				}
			case 13:
				o = rOp{K: "tdesc", H: g.Int(0, nT-1), L: []int{nT + i}}
				if g.P(50) {
					o.H, o.L[0] = o.L[0], o.H
				}
			case 14:
				row := rRow{T: Pick(g, x.tids), N: nsp(), S: scope(), P: me}
				if g.P(50) {
					row.R = role()
				}
				mine.rows = append(mine.rows, row)
				o = rOp{K: "data", D: &row}
			default:
				q := mine.request(60)
				if q.HA && len(myPerms) > 0 && g.P(40) {
					p := Pick(g, myPerms)
					q.G, q.A, q.HG = p[0], p[1]+" "+p[2], true
				}
				o = rOp{K: "ask", R: &q}
			}
			th.Ops = append(th.Ops, o)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

func tenantID(base rCase, th rThread, h, nT int) string {
	if h < nT {
		return base.Tenants[h]
	}
	return th.Tenant
}

var _ = Register("C17",
	"2-5 goroutines add principals, tenants, roles, permissions of shared roles, hierarchy edges and assignments of every kind to shared tenants, and register objects of the same ids, while they and two readers query, under the race detector; oracle: no data race, crash or deadlock, an answer in flight lies between the answer on what had been added for certain and the answer on everything, all threads agree on the object of an id, and in the end nothing added is missing; non-trivial: two or more threads, and some answer in flight must be a grant",
	2, genRConc, func(c rConcCase, ctx *Ctx) error {
		full := c.Base
		full.Tenants = append([]string{}, c.Base.Tenants...)
		full.Roles = append([]string{}, c.Base.Roles...)
		for _, th := range c.Threads {
			full.Tenants = append(full.Tenants, th.Tenant)
			full.Roles = append(full.Roles, th.Role)
		}
		model := func() *rWorld { // the base, on the model alone
			w := &rWorld{c: &full, m: newRModel()}
			for _, id := range full.Tenants {
				w.mt = append(w.mt, &rmTenant{id: id, desc: map[string]*rmTenant{}})
			}
			for _, id := range full.Roles {
				w.mr = append(w.mr, &rmRole{id: id, perms: map[string]map[string]bool{}, desc: map[string]*rmRole{}})
			}
			for _, o := range c.Base.Ops {
				w.model(o)
			}
			return w
		}
		build := func() (*rWorld, error) {
			w := newRWorld(&full)
			for i, o := range c.Base.Ops {
				if err := w.apply(o); err != nil && err != errSkip {
					return nil, fmt.Errorf("base op %d: %w", i, err)
				}
			}
			return w, nil
		}
		type expect struct{ lower, fails, skip bool }
		exp := make([][]expect, len(c.Threads))
		grants := 0
		for i, th := range c.Threads {
			w := model()
			for _, o := range th.Ops {
				var e expect
				if o.K == "ask" {
					if o.R == nil {
						e.skip = true
					} else if e.lower = w.m.authorize(*o.R); e.lower {
						grants++
					}
				} else {
					var ok bool
					e.fails, ok = w.model(o)
					e.skip = !ok
				}
				exp[i] = append(exp[i], e)
			}
		}
		w, err := build()
		if err != nil {
			return err
		}
		end := model()
		for i, th := range c.Threads {
			for k, o := range th.Ops {
				if o.K != "ask" && !exp[i][k].skip {
					end.model(o)
				}
			}
		}
		var lower, upper []bool
		for _, q := range c.Base.Probes {
			lower = append(lower, w.m.authorize(q))
			upper = append(upper, end.m.authorize(q))
			if lower[len(lower)-1] {
				grants++
			}
		}
		uppers := make([][]bool, len(c.Threads))
		for i, th := range c.Threads {
			uppers[i] = make([]bool, len(th.Ops))
			for k, o := range th.Ops {
				if o.K == "ask" && o.R != nil {
					uppers[i][k] = end.m.authorize(*o.R)
				}
			}
		}
		endRows := end.m.where(func(rRow) bool { return true })
		before := map[rRow]bool{}
		for r := range w.m.rows {
			before[r] = true
		}
		errs := make(chan error, 64)
		report := func(err error) {
			select {
			case errs <- err:
			default:
			}
		}
		guard := func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<14)
				report(fmt.Errorf("panic: %v\n%s", r, trimStack(buf[:runtime.Stack(buf, false)])))
			}
		}
		var wg, readers sync.WaitGroup
		start := make(chan struct{})
		shared := make([][]any, len(c.Threads))
		for i := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer guard()
				<-start
				for _, id := range c.Shared {
					g := permission.NewAttributeGroup(id)
					shared[i] = append(shared[i], w.u.AddTenant(permission.NewTenant(id)), w.u.AddNamespace(permission.NewNamespace(id)), w.u.AddScope(permission.NewScope(id)),
						w.u.AddPrincipal(permission.NewPrincipal(id)), w.u.AddRole(permission.NewRole(id)), w.u.AddAttribute(permission.NewAttribute(id, "DO")), w.u.AddAttributeGroup(g))
				}
				for k, o := range c.Threads[i].Ops {
					e := exp[i][k]
					if e.skip {
						continue
					}
					if o.K == "ask" {
						if got := w.ask(*o.R); (e.lower && !got) || (got && !uppers[i][k]) {
							report(fmt.Errorf("thread %d op %d: %s = %v, want %v to %v", i, k, js(o.R), got, e.lower, uppers[i][k]))
						}
						continue
					}
					if err := w.do(o); (err != nil) != e.fails {
						report(fmt.Errorf("thread %d op %d %s: error %v, expected one: %v", i, k, js(o), err, e.fails))
					}
				}
			}()
		}
		var stop atomic.Bool
		for r := 0; r < 2; r++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				defer guard()
				<-start
				for n := 0; n < 8 && (n < 1 || !stop.Load()); n++ {
					for i, q := range c.Base.Probes {
						if got := w.ask(q); (lower[i] && !got) || (got && !upper[i]) {
							report(fmt.Errorf("while others were adding, %s = %v, want %v to %v", js(q), got, lower[i], upper[i]))
						}
					}
					if r == 0 {
						seen := map[rRow]int{}
						for _, d := range w.u.Data().Data() {
							row := rowOf(d)
							seen[row]++
							if !end.m.rows[row] || seen[row] > 1 {
								report(fmt.Errorf("while others were adding, there is a row %s (%d times)", js(row), seen[row]))
							}
						}
						for row := range before {
							if seen[row] == 0 {
								report(fmt.Errorf("while others were adding, the row %s is gone", js(row)))
							}
						}
					} else {
						w.u.GetRolesForAvailablePermissions()
						w.u.Summary()
						_ = w.u.AsString()
						w.u.Roles()
						w.u.Tenants()
						for _, q := range c.Base.Probes {
							w.u.GetScopesWithRolesForPrincipal(rid(q.P), rid(q.T), rid(q.N))
							w.u.GetImplicitTenants(rid(q.P))
							w.u.TenantChildren(rid(q.T))
						}
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		stop.Store(true)
		readers.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
		for i := range shared {
			for k := range shared[i] {
				if shared[i][k] != shared[0][k] {
					return fmt.Errorf("threads 0 and %d registered the same id (%q) and were given different objects: %T", i, c.Shared[k/7], shared[i][k])
				}
			}
		}
		for k, id := range c.Shared {
			u := w.u
			a, _ := u.GetTenant(id)
			b, _ := u.GetNamespace(id)
			s, _ := u.GetScope(id)
			p, _ := u.GetPrincipal(id)
			r, _ := u.GetRole(id)
			at, _ := u.GetAttribute(id + " DO")
			ag, _ := u.GetAttributeGroup(id)
			for j, x := range []any{a, b, s, p, r, at, ag} {
				if len(shared) > 0 && x != shared[0][7*k+j] {
					return fmt.Errorf("the object registered for %q is not the one all threads were given: %T", id, x)
				}
			}
		}
		// nothing is missing
		m := end.m
		for _, id := range c.Shared {
			m.roles[id] = &rmRole{id: id}
			m.tenants[id] = &rmTenant{id: id}
			m.ns[id], m.scopes[id], m.principals[id] = true, true, true
		}
		if got := rowStrings(w.u.Data().Data()); js(got) != js(endRows) {
			return fmt.Errorf("rows in the end: %v, want %v", got, endRows)
		}
		for _, x := range []struct {
			kind      string
			got, want []string
			total     int
		}{
			{"roles", w.u.Roles(), sortedKeys(m.roles), w.u.TotalRoles()}, {"tenants", w.u.Tenants(), sortedKeys(m.tenants), w.u.TotalTenants()},
			{"namespaces", w.u.Namespaces(), sortedKeys(m.ns), w.u.TotalNamespaces()}, {"scopes", w.u.Scopes(), sortedKeys(m.scopes), w.u.TotalScopes()},
			{"principals", w.u.Principals(), sortedKeys(m.principals), w.u.TotalPrincipals()},
		} {
			for i := range x.got {
				x.got[i] = unrid(x.got[i])
			}
			sort.Strings(x.got)
			if js(append([]string{}, x.got...)) != js(x.want) || x.total != len(x.want) {
				return fmt.Errorf("%s in the end: %v (%d), want %v", x.kind, x.got, x.total, x.want)
			}
		}
		for i := range w.rr {
			want := map[string][]string{}
			for g, ps := range end.mr[i].perms {
				if len(ps) > 0 {
					want[g] = sortedKeys(ps)
				}
			}
			if got := attrStrings(w.rr[i].GetPermissions()); js(got) != js(want) {
				return fmt.Errorf("role %s has %v in the end, want %v", full.Roles[i], got, want)
			}
		}
		for i, q := range c.Base.Probes {
			ctx.Queries++
			if got, want := w.ask(q), upper[i]; got != want {
				return fmt.Errorf("after all threads, probe %d %s = %v, want %v", i, js(q), got, want)
			}
		}
		for i, th := range c.Threads {
			for k, o := range th.Ops {
				if o.K == "ask" && o.R != nil {
					ctx.Queries++
					if got := w.ask(*o.R); got != uppers[i][k] {
						return fmt.Errorf("after all threads, thread %d's %s = %v, want %v", i, js(o.R), got, uppers[i][k])
					}
				}
			}
		}
		ctx.Label("threads=%d", len(c.Threads))
		if grants > 0 && len(c.Threads) > 1 {
			ctx.NonTrivial()
		}
		return nil
	})
