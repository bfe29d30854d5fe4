package harness

import (
	"fmt"
	"log/slog"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	v2 "github.com/oarkflow/permission/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C08: concurrent use (built with the race detector)

type v2ConcCase struct {
	Base    v2Case
	Threads []v2Thread
	Ring    int // this many roles whose edges, added concurrently, would close a cycle
	Log     bool
	Pile    []int // one thread each, all adding to one tenant and one role; the step it starts with
	Rounds  int
}

type v2Thread struct {
	Tenant v2TenantDef
	Role   string
	Ops    []v2Op // own principal, role and tenant; shared tenants and roles only added to
}

// Threads only do what commutes with the others: thread i assigns and removes
// its own principal, adds unique permissions, roles, tenants, namespaces and
// scopes. Its own queries, and the queries about the base configuration, then
// have one right answer under every schedule.
func genV2Conc(t *rapid.T) v2ConcCase {
	x := newV2Gen(t)
	g := x.g
	x.setup()
	x.probes(g.Int(2, 5), 30)
	c := v2ConcCase{Base: x.c, Ring: g.Int(0, 4), Log: g.P(30)}
	if g.P(60) {
		c.Rounds = g.Int(1, 8)
		together := g.Int(0, 6)
		for n := g.Int(2, 6); n > 0; n-- {
			c.Pile = append(c.Pile, together)
			if g.P(30) {
				c.Pile[len(c.Pile)-1] = g.Int(0, 6)
			}
		}
	}
	var ps []v2Req
	for _, p := range c.Base.Probes {
		if p.Tenant == "" {
			p.Tenant = Pick(g, x.tids)
		}
		if p.Namespace == "" {
			p.Namespace = Pick(g, x.nss)
			if ns := x.tns[p.Tenant]; len(ns) > 0 {
				p.Namespace = Pick(g, ns)
			}
		}
		ps = append(ps, p)
	}
	c.Base.Probes = ps
	// no shared role is without permissions: the first permission of a scoped
	// role hides the global ones, so adding it would not commute
	for h := range c.Base.Roles {
		c.Base.Ops = append(c.Base.Ops, v2Op{K: "perm", H: h, S: []string{"/base", "DO"}})
	}
	nT, nR := len(c.Base.Tenants), len(c.Base.Roles)
	n := g.Int(2, 6)
	for i := 0; i < n; i++ {
		is := strconv.Itoa(i)
		th := v2Thread{Tenant: v2TenantDef{ID: "own-tenant" + is, NS: Pick(g, x.nss)}, Role: "own-role" + is}
		me := "own-principal" + is
		var mine []v2PR
		var myPerms [][3]string
		k := g.Int(4, 22)
		for j := 0; j < k; j++ {
			var o v2Op
			js := strconv.Itoa(j)
			switch g.Int(0, 16) {
			case 0, 1, 2:
				p := x.drawPR()
				p.Principal = me
				if g.P(30) {
					p.Role = th.Role
				}
				if g.P(20) {
					p.Tenant = th.Tenant.ID
				}
				mine = append(mine, p)
				o = v2Op{K: "assign", PL: []v2PR{p}}
			case 3, 4:
				p := x.criteria()
				if len(mine) > 0 && g.P(80) {
					m := Pick(g, mine)
					p.Tenant, p.Role = m.Tenant, m.Role
					p.Namespace, p.Scope = "", ""
				}
				p.Principal = me
				o = v2Op{K: "unassign", P: &p}
			case 5:
				o = v2Op{K: "role", H: nR + i}
			case 6:
				r := "/own" + is + "/" + js
				h := nR + i
				if g.P(50) {
					h = g.Int(0, len(x.roleNames)-1)
				}
				myPerms = append(myPerms, [3]string{strconv.Itoa(h), r, "DO"})
				o = v2Op{K: "perm", H: h, S: []string{r, "DO"}}
			case 7:
				if len(myPerms) == 0 {
					continue
				}
				p := Pick(g, myPerms)
				h, _ := strconv.Atoi(p[0])
				o = v2Op{K: "unperm", H: h, S: []string{p[1], p[2]}}
			case 8:
				o = v2Op{K: "edge", A: th.Role, S: []string{Pick(g, x.roleNames)}}
			case 9:
				o = v2Op{K: "tenant", H: nT + i}
			case 10:
				o = v2Op{K: "ns", H: g.Int(0, len(x.tids)-1), A: "own-ns" + is}
				if g.P(40) {
					o.H = nT + i
				}
			case 11:
				o = v2Op{K: "scope", H: g.Int(0, len(x.tids)-1), A: Pick(g, x.nss), S: []string{"own-scope" + is}}
				if g.P(40) {
					o.H = nT + i
				}
			case 12, 13:
				o = v2Op{K: "child", H: g.Int(0, len(x.tids)-1), L: []int{nT + i}}
				if g.P(45) { // the own tenant above shared ones, before or after it is registered
					o = v2Op{K: "child", H: nT + i, L: []int{g.Int(0, len(x.tids)-1)}}
				}
			default:
				r := x.request(g.P(40))
				r.Principal = me
				if len(mine) > 0 {
					m := Pick(g, mine)
					r.Tenant, r.Namespace, r.Scope = m.Tenant, m.Namespace, m.Scope
					if r.Can {
						r.Roles = append(r.Roles, m.Role)
					}
				}
				if !r.Can && len(myPerms) > 0 && g.P(50) {
					p := Pick(g, myPerms)
					r.Resource, r.Action = p[1], p[2]
				}
				if r.Tenant == "" {
					r.Tenant = Pick(g, x.tids)
				}
				if r.Namespace == "" {
					r.Namespace = Pick(g, x.nss)
				}
				o = v2Op{K: "ask", R: &r}
			}
			th.Ops = append(th.Ops, o)
		}
		c.Threads = append(c.Threads, th)
	}
	return c
}

var _ = Register("C08",
	"2-6 goroutines, each changing the configuration in ways that commute with the others' (own principal, role, tenant; unique permissions, namespaces and scopes on shared ones; edges of a shared ring of roles; the same namespace and own scopes, permissions, child roles and child tenants piled on one tenant and role) while they and two readers query, under the race detector; oracle: no data race, crash or deadlock, every query in flight has its one right answer, exactly one edge of the ring is refused, and the end state equals the sequential one; non-trivial: two or more threads change and query, and some answers are grants",
	3, genV2Conc, func(c v2ConcCase, ctx *Ctx) error {
		full := c.Base
		full.Tenants = append([]v2TenantDef{}, c.Base.Tenants...)
		full.Roles = append([]string{}, c.Base.Roles...)
		for _, th := range c.Threads {
			full.Tenants = append(full.Tenants, th.Tenant)
			full.Roles = append(full.Roles, th.Role)
		}
		build := func(lg ...*slog.Logger) (*v2World, error) {
			w := newV2World(&full, lg...)
			for i, o := range c.Base.Ops {
				if err := w.apply(o); err != nil && err != errSkip {
					return nil, fmt.Errorf("base op %d: %w", i, err)
				}
			}
			return w, nil
		}
		// what each thread must see: the base plus its own steps
		type expect struct{ answer, fails, skip bool }
		exp := make([][]expect, len(c.Threads))
		grants := 0
		for i, th := range c.Threads {
			w, err := build()
			if err != nil {
				return err
			}
			for _, o := range th.Ops {
				var e expect
				if o.K == "ask" {
					if o.R == nil {
						e.skip = true
					} else if e.answer = w.m.ask(*o.R, time.Now()); e.answer {
						grants++
					}
				} else {
					var ok bool
					e.fails, ok = w.model(o)
					e.skip = !ok
				}
				exp[i] = append(exp[i], e)
			}
		}
		var lg []*slog.Logger
		if c.Log {
			lg = append(lg, slog.New(&recHandler{}))
		}
		w, err := build(lg...)
		if err != nil {
			return err
		}
		var stable []bool
		for _, q := range c.Base.Probes {
			a := w.m.ask(q, time.Now())
			stable = append(stable, a)
			if a {
				grants++
			}
		}
		var wg, readers sync.WaitGroup
		start := make(chan struct{})
		errs := make(chan error, 64)
		report := func(err error) {
			select {
			case errs <- err:
			default:
			}
		}
		guard := func() {
			if r := recover(); r != nil {
				buf := make([]byte, 1<<14)
				report(fmt.Errorf("panic: %v\n%s", r, trimStack(buf[:runtime.Stack(buf, false)])))
			}
		}
		for i := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer guard()
				<-start
				for k, o := range c.Threads[i].Ops {
					e := exp[i][k]
					if e.skip {
						continue
					}
					if o.K == "ask" {
						if got := w.real.ask(*o.R); got != e.answer {
							report(fmt.Errorf("thread %d op %d: %s = %v, want %v", i, k, js(o.R), got, e.answer))
						}
						continue
					}
					if err := w.real.do(o, w.start, false); (err != nil) != e.fails {
						report(fmt.Errorf("thread %d op %d (%s): error %v, expected one: %v", i, k, o.K, err, e.fails))
					}
				}
			}()
		}
		var refused atomic.Int32
		ring := c.Ring
		if ring < 2 {
			ring = 0
		}
		for i := 0; i < ring; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer guard()
				<-start
				if w.real.a.AddChildRole("ring"+strconv.Itoa(i), "ring"+strconv.Itoa((i+1)%ring)) != nil {
					refused.Add(1)
				}
			}()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer guard()
			<-start
			for round := 0; round < min(c.Rounds, 20) && len(c.Pile) > 1; round++ {
				if err := v2Pile(w.real.a, round, c.Pile); err != nil {
					report(err)
				}
			}
		}()
		var stop atomic.Bool
		// steps that change nothing, whatever else is done
		var idle []func()
		def := w.m.def
		idle = append(idle, func() { w.real.a.SetDefaultTenant(def) })
		for h, t := range w.mt[:len(c.Base.Tenants)] {
			if w.m.tenants[t.id] == t {
				idle = append(idle, func() { w.real.a.AddTenant(w.real.tenants[h]) })
			}
			if ns := t.def; ns != "" && t.ns[ns] != nil {
				idle = append(idle, func() { w.real.tenants[h].AddNamespace(ns, true) })
			}
		}
		for h, r := range w.mr[:len(c.Base.Roles)] {
			if w.m.roles[r.name] == r {
				idle = append(idle, func() { w.real.a.AddRole(w.real.roles[h]) })
			}
		}
		for r := 0; r < 2; r++ {
			readers.Add(1)
			go func() {
				defer readers.Done()
				defer guard()
				<-start
				for n := 0; n < 40 && (n < 2 || !stop.Load()); n++ {
					for i, q := range c.Base.Probes {
						if got := w.real.ask(q); got != stable[i] {
							report(fmt.Errorf("while others were being configured, %s = %v, want %v", js(q), got, stable[i]))
						}
					}
					w.real.a.GetRole("ring0")
					for _, d := range c.Base.Tenants {
						w.real.a.GetTenant(d.ID)
					}
					w.real.a.GetDefaultTenant()
					idle[(2*n+r)%len(idle)]()
				}
			}()
		}
		close(start)
		wg.Wait()
		stop.Store(true)
		readers.Wait()
		select {
		case err := <-errs:
			return err
		default:
		}
		if ring > 0 && refused.Load() != 1 {
			return fmt.Errorf("a ring of %d roles was added concurrently: %d edges refused, want 1", ring, refused.Load())
		}
		// the end state is the sequential one
		for _, th := range c.Threads {
			for _, o := range th.Ops {
				if o.K != "ask" {
					w.model(o)
				}
			}
		}
		for i, q := range c.Base.Probes {
			ctx.Queries++
			if got, want := w.real.ask(q), w.m.ask(q, time.Now()); got != want {
				return fmt.Errorf("after all threads, probe %d %s = %v, want %v", i, js(q), got, want)
			}
		}
		for i, th := range c.Threads {
			for _, o := range th.Ops {
				if o.K == "ask" && o.R != nil {
					ctx.Queries++
					if got, want := w.real.ask(*o.R), w.m.ask(*o.R, time.Now()); got != want {
						return fmt.Errorf("after all threads, thread %d's %s = %v, want %v", i, js(o.R), got, want)
					}
				}
			}
		}
		ctx.Label("threads=%d", len(c.Threads))
		if len(c.Pile) > 1 {
			ctx.Label("all adding to one tenant and role")
		}
		if ring > 0 {
			ctx.Label("ring of %d", ring)
		}
		if grants > 0 && len(c.Threads) > 1 {
			ctx.NonTrivial()
		}
		return nil
	})

// v2Pile lets every thread add a namespace (the same one), its own scope in it,
// permission, child role, child tenant and principal to one tenant and one role.
// Each addition counts for its thread at once, and all do in the end.
func v2Pile(a *v2.Authorizer, round int, first []int) error {
	n := "pile" + strconv.Itoa(round)
	t := a.AddTenant(v2.NewTenant(n))
	role := a.AddRole(v2.NewRole(n))
	verify := func(is, when string) error {
		r := v2.Request{Principal: n + "-p" + is, Tenant: n, Namespace: "ns", Scope: "scope" + is, Resource: "/own" + is, Action: "DO"}
		if !a.Authorize(r) {
			return fmt.Errorf("%s: the role all threads add to lacks thread %s's permission, or the shared namespace its scope", when, is)
		}
		r.Resource = "/below" + is
		if !a.Authorize(r) {
			return fmt.Errorf("%s: thread %s's child role is missing", when, is)
		}
		if !a.Can(r, n+"-r"+is) {
			return fmt.Errorf("%s: thread %s's child role is not held", when, is)
		}
		r.Scope, r.Resource = "", "/child"+is
		if !a.Authorize(r) {
			return fmt.Errorf("%s: thread %s's child tenant is missing", when, is)
		}
		if _, ok := a.GetTenant(n + "-t" + is); !ok {
			return fmt.Errorf("%s: thread %s's tenant is not registered", when, is)
		}
		return nil
	}
	errs := make([]error, len(first))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i := range first {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					buf := make([]byte, 1<<14)
					errs[i] = fmt.Errorf("panic: %v\n%s", r, trimStack(buf[:runtime.Stack(buf, false)]))
				}
			}()
			is := strconv.Itoa(i)
			steps := []func() error{
				func() error {
					t.AddNamespace("ns", true)
					return t.AddScopeToNamespace("ns", v2.NewScope("scope"+is))
				},
				func() error { role.AddPermission(v2.NewPermission("c", "/own"+is, "DO")); return nil },
				func() error {
					r := v2.NewRole(n + "-r" + is)
					r.AddPermission(v2.NewPermission("c", "/below"+is, "DO"))
					a.AddRoles(r)
					return nil
				},
				func() error { return a.AddChildRole(n, n+"-r"+is) },
				func() error {
					c := v2.NewTenant(n+"-t"+is, "ns")
					a.AddTenants(c)
					t.AddChildTenant(c)
					return nil
				},
				func() error {
					a.AddPrincipalRole(&v2.PrincipalRole{Principal: n + "-p" + is, Tenant: n, Namespace: "ns", Role: n, ManageChildTenant: true})
					return nil
				},
				func() error {
					r := a.AddRole(v2.NewRole(n + "-c" + is))
					r.AddPermission(v2.NewPermission("c", "/child"+is, "DO"))
					a.AddPrincipalRole(&v2.PrincipalRole{Principal: n + "-p" + is, Tenant: n + "-t" + is, Role: n + "-c" + is})
					return nil
				},
			}
			<-start
			for k := range steps {
				if err := steps[(max(first[i], 0)+k)%len(steps)](); err != nil {
					errs[i] = fmt.Errorf("thread %s, step %d: %w", is, k, err)
					return
				}
			}
			errs[i] = verify(is, "at once")
		}()
	}
	close(start)
	wg.Wait()
	for i := range first {
		if errs[i] != nil {
			return errs[i]
		}
		if err := verify(strconv.Itoa(i), "once all are done"); err != nil {
			return err
		}
	}
	return nil
}
