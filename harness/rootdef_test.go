package harness

import (
	"fmt"
	"strconv"
	"sync"

	"pgregory.net/rapid"

	permission "github.com/oarkflow/permission"
)

// ---------------------------------------------------------------- C17: default namespaces handed down while others assign

type rDefCase struct {
	Tenants int
	Setup   []rDefOp
	Threads [][]rDefOp
}

// K: "def" (T gets the default namespace N), "edge" (C below T), "role" and
// "scope" (the thread's principal gets one in T), "ask"
type rDefOp struct {
	K       string
	T, C, N int
	F       bool
}

func genRDef(t *rapid.T) rDefCase {
	g := G{t}
	c := rDefCase{Tenants: g.Int(2, 4)}
	draw := func(kinds ...string) rDefOp {
		return rDefOp{K: Pick(g, kinds), T: g.Int(0, c.Tenants-1), C: g.Int(0, c.Tenants-1), N: g.Int(0, 2), F: g.P(30)}
	}
	for k := g.Int(1, 4); k > 0; k-- {
		c.Setup = append(c.Setup, draw("def", "def", "edge"))
	}
	for i, n := 0, g.Int(2, 5); i < n; i++ {
		var ops []rDefOp
		for k := g.Int(2, 10); k > 0; k-- {
			ops = append(ops, draw("def", "edge", "edge", "role", "role", "scope", "ask"))
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

var _ = Register("C17",
	"2-5 goroutines set default namespaces, place tenants below each other (which hands the default namespace down) and assign roles and scopes in the same tenants, under the race detector; oracle: no data race or crash; every assignment has its row, and one for a namespace that can have been the default at that time, always if there was one before the threads began; there are no other rows; afterwards assignments follow one of the possible default namespaces; non-trivial: an assignment and a change of the default meet in one tenant",
	2, genRDef, func(c rDefCase, ctx *Ctx) error {
		u := permission.New()
		var ts []*permission.Tenant
		var may []map[int]bool // namespaces that can be the default
		var sure []bool        // there is one for certain
		must := map[rRow]bool{}
		can := map[rRow]bool{}
		for i := 0; i < c.Tenants; i++ {
			ts = append(ts, u.AddTenant(permission.NewTenant("T"+strconv.Itoa(i))))
			may = append(may, map[int]bool{})
			sure = append(sure, false)
		}
		nsName := func(n int) string { return "N" + strconv.Itoa(n) }
		for n := 0; n < 3; n++ {
			u.AddNamespace(permission.NewNamespace(nsName(n)))
		}
		u.AddRole(permission.NewRole("r"))
		u.AddScope(permission.NewScope("s"))
		do := func(o rDefOp, p string) error {
			switch o.K {
			case "def":
				ts[o.T].SetDefaultNamespace(nsName(o.N))
			case "edge":
				return ts[o.T].AddDescendant(ts[o.C])
			case "role":
				return ts[o.T].AddPrincipalWithRole(p, "r", o.F)
			case "scope":
				return ts[o.T].AddScopeToPrincipal(p, "s", o.F)
			case "ask":
				u.Authorize(p, permission.WithTenant(ts[o.T].ID()), permission.WithNamespace(nsName(o.N)))
			}
			return nil
		}
		bad := func(o rDefOp) bool { return o.T >= c.Tenants || o.C >= c.Tenants || o.T < 0 || o.C < 0 }
		for _, o := range c.Setup {
			if bad(o) {
				return nil
			}
			if err := do(o, ""); err != nil {
				return err
			}
			switch {
			case o.K == "def":
				may[o.T], sure[o.T] = map[int]bool{o.N: true}, true
			case o.K == "edge" && sure[o.T]:
				for n := range may[o.T] {
					must[rRow{T: ts[o.C].ID(), N: nsName(n)}] = true
					may[o.C] = map[int]bool{n: true}
				}
				sure[o.C] = true
			}
		}
		changed, assigned := map[int]bool{}, map[int]bool{}
		for more := true; more; { // what the threads can lead to
			more = false
			for _, ops := range c.Threads {
				for _, o := range ops {
					if bad(o) {
						return nil
					}
					if o.K == "def" && !may[o.T][o.N] {
						may[o.T][o.N], more = true, true
					}
					if o.K == "edge" {
						for n := range may[o.T] {
							if !may[o.C][n] {
								may[o.C][n], more = true, true
							}
						}
					}
				}
			}
		}
		type pair struct{ any []rRow } // one of them has to be there
		var pairs []pair
		for i, ops := range c.Threads {
			p := "p" + strconv.Itoa(i)
			u.AddPrincipal(permission.NewPrincipal(p))
			for _, o := range ops {
				switch o.K {
				case "def":
					changed[o.T] = true
				case "edge":
					changed[o.C] = changed[o.C] || len(may[o.T]) > 0
					var x pair
					for n := range may[o.T] {
						r := rRow{T: ts[o.C].ID(), N: nsName(n)}
						can[r] = true
						x.any = append(x.any, r)
					}
					if sure[o.T] {
						pairs = append(pairs, x)
					}
				case "role", "scope":
					assigned[o.T] = true
					r := rRow{T: ts[o.T].ID(), P: p, M: strconv.FormatBool(o.F)}
					if o.K == "role" {
						r.R = "r"
					} else {
						r.S = "s"
					}
					must[r] = true
					var x pair
					for n := range may[o.T] {
						d := r
						d.N = nsName(n)
						can[d] = true
						x.any = append(x.any, d)
					}
					if sure[o.T] {
						pairs = append(pairs, x)
					}
				}
			}
		}
		for t := range changed {
			if assigned[t] && changed[t] {
				ctx.NonTrivial()
			}
		}
		errs := make([]error, len(c.Threads))
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i, ops := range c.Threads {
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if r := recover(); r != nil {
						errs[i] = fmt.Errorf("panic: %v", r)
					}
				}()
				<-start
				for k, o := range ops {
					if err := do(o, "p"+strconv.Itoa(i)); err != nil && errs[i] == nil {
						errs[i] = fmt.Errorf("thread %d op %d: %w", i, k, err)
					}
				}
			}()
		}
		close(start)
		wg.Wait()
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		rows := func() map[rRow]bool {
			out := map[rRow]bool{}
			for _, d := range u.Data().Data() {
				out[rowOf(d)] = true
			}
			return out
		}
		got := rows()
		for r := range got {
			ctx.Queries++
			if !must[r] && !can[r] {
				return fmt.Errorf("there is a row %s nothing can have made", js(r))
			}
		}
		for r := range must {
			if !got[r] {
				return fmt.Errorf("the row %s is missing", js(r))
			}
		}
		for _, x := range pairs {
			found := len(x.any) == 0
			for _, r := range x.any {
				found = found || got[r]
			}
			if !found {
				return fmt.Errorf("none of the rows %s is there, though the tenant has had a default namespace all along", js(x.any))
			}
		}
		u.AddPrincipal(permission.NewPrincipal("last"))
		for i, t := range ts {
			if err := t.AddPrincipalWithRole("last", "r", false); err != nil {
				return err
			}
			n := 0
			for r := range rows() {
				if r.P != "last" || r.T != t.ID() || r.N == "" {
					continue
				}
				n++
				ok := false
				for m := range may[i] {
					ok = ok || r.N == nsName(m)
				}
				if !ok {
					return fmt.Errorf("an assignment afterwards stored %s, not a default namespace of that tenant", js(r))
				}
			}
			if n > 1 || sure[i] && n == 0 {
				return fmt.Errorf("an assignment afterwards in %s stored %d rows for a default namespace", t.ID(), n)
			}
		}
		return nil
	})
