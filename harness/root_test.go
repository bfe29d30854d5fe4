package harness

import (
	"fmt"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C10, C11: Authorize

func genRoot(activity int) func(t *rapid.T) rCase {
	return func(t *rapid.T) rCase {
		x := newRGen(t)
		g := x.g
		x.register(92)
		if g.P(25) { // a default namespace before the hierarchy hands it down
			for i := range x.tids {
				if g.P(40) {
					n := Pick(g, x.nss)
					x.op(rOp{K: "defns", H: i, A: n})
					x.defs[i] = n
				}
			}
		}
		if activity > 0 || g.P(20) {
			x.roleOps()
		}
		x.tenantTree()
		if g.P(1) && g.P(30) {
			x.bulk()
		}
		n := g.Int(1, 8)
		if g.P(5) {
			n = g.Int(15, 60)
			if g.P(15) {
				n = g.Big()
			}
		}
		for i := 0; i < n; i++ {
			x.assignment(true)
			if g.P(12) {
				q := x.request(activity)
				x.op(rOp{K: "ask", R: &q})
			}
			if !raceOn && g.P(1) && g.P(25) {
				if q := x.request(activity); g.P(40) {
					x.op(rOp{K: "churn", A: Pick(g, []string{"principal", "tenant", "scope", "activity", "same"}), R: &q, N: Pick(g, []int{70, 140, 270, 530, 1030})})
				} else {
					x.op(rOp{K: "spin", A: Pick(g, []string{"data", "role", "tenant", "principal", "perm"}), H: g.Int(0, len(x.roleNames)-1), N: spinCount(g)})
				}
			}
		}
		x.probes(3, 9, activity)
		x.c.Ops = late(g, x.c.Ops, func(o rOp) string { return o.K }, rOp{K: "probe"})
		return x.c
	}
}

func evalRoot(c rCase, ctx *Ctx) error {
	w := newRWorld(&c)
	yes, no := 0, 0
	probe := func(when string) error {
		for i, q := range c.Probes {
			want, err := w.compare(q, ctx)
			if err != nil {
				return fmt.Errorf("%s, probe %d: %w", when, i, err)
			}
			if want {
				yes++
			} else {
				no++
			}
		}
		return nil
	}
	for i, o := range c.Ops {
		if ctx.Over() {
			return nil
		}
		if o.K == "ask" {
			if o.R != nil {
				if _, err := w.compare(*o.R, ctx); err != nil {
					return fmt.Errorf("op %d: %w", i, err)
				}
			}
			continue
		}
		if o.K == "probe" {
			if err := probe(fmt.Sprintf("before op %d", i+1)); err != nil {
				return err
			}
			continue
		}
		if o.K == "churn" {
			if err := w.churn(o, ctx); err != nil {
				return fmt.Errorf("op %d (%s): %w", i, o.K, err)
			}
			ctx.Label("many questions at once")
		}
		spins := i+1 < len(c.Ops) && c.Ops[i+1].K == "spin"
		if spins {
			if err := probe(fmt.Sprintf("before op %d", i)); err != nil {
				return err
			}
		}
		if err := w.apply(o); err != nil && err != errSkip {
			return fmt.Errorf("op %d: %w", i, err)
		}
		if spins {
			ctx.Label("many changes at once")
			continue
		}
		if i%9 == 8 || o.K == "spin" {
			if err := probe(fmt.Sprintf("after op %d", i)); err != nil {
				return err
			}
		}
	}
	if err := probe("at the end"); err != nil {
		return err
	}
	if len(w.m.rows) > 20 {
		ctx.Label("over 20 rows")
	}
	if yes > 0 && no > 0 {
		ctx.NonTrivial()
	}
	return nil
}

var _ = Register("C10",
	"histories of registrations, tenant trees, default namespaces and assignments of every kind, with requests for a tenant, namespace and/or scope derived from the rows and mutated; oracle: reference decision over the set of rows; non-trivial: granted and denied requests occur",
	2, genRoot(0), evalRoot)

var _ = Register("C11",
	"as C10 with roles, permissions, role inheritance and requests naming an attribute group and activity; oracle: reference decision over rows, role graph and pattern language; non-trivial: granted and denied requests occur",
	2, genRoot(100), evalRoot)
