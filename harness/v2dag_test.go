package harness

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	v2 "github.com/oarkflow/permission/v2"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C03, part 2: RoleDAG itself

// dagOp: Op is "role" (register role Role afresh, with permissions Perms),
// "edge", "grant" or "revoke" (on the object registered now).
type dagOp struct {
	Op    string
	Role  string
	Args  []string
	Query []string // roles resolved afterwards
	N     int      `json:",omitempty"`
	Spare int      // spare capacity of the argument list
}

type dagCase struct {
	Roles []string
	Ops   []dagOp
}

func genDag(t *rapid.T) dagCase {
	g := G{t}
	n := g.Int(2, 9)
	k := g.Int(3, 30)
	if g.P(3) {
		n = g.Big()
		k = n + n/2
	}
	c := dagCase{Roles: g.IDs(n, "R", g.OddPool(30))}
	R := c.Roles
	perm := func() string { return "/r" + strconv.Itoa(g.Int(0, 5)) + " DO" }
	query := func() (q []string) {
		for g.P(45) && len(q) < 4 {
			q = append(q, Pick(g, R))
		}
		return q
	}
	regFirst := 75
	if n > 9 {
		regFirst = 97
	}
	for _, r := range R {
		if g.P(regFirst) {
			c.Ops = append(c.Ops, dagOp{Op: "role", Role: r, Args: []string{perm()}})
		}
	}
	long := -1
	if g.P(1) && g.P(60) {
		long = g.Int(0, k-1)
	}
	for i := 0; i < k; i++ {
		if i == long {
			c.Ops = append(c.Ops, dagOp{Op: Pick(g, []string{"chain", "chain", "fan"}), Role: Pick(g, R), Args: []string{Pick(g, R)}, N: g.Huge(), Query: query()})
			n := len(c.Ops) - 1
			c.Ops[n].Query = append(c.Ops[n].Query, c.Ops[n].Role)
			if g.P(50) { // would close a cycle, over all of them
				c.Ops = append(c.Ops, dagOp{Op: "edge", Role: c.Ops[n].Args[0], Args: []string{c.Ops[n].Role}})
			}
		}
		o := dagOp{Query: query()}
		switch x := g.Int(0, 99); {
		case x < 12:
			o.Op, o.Role = "role", Pick(g, R)
			for g.P(50) {
				o.Args = append(o.Args, perm())
			}
		case x < 25:
			o.Op, o.Role, o.Args = "grant", Pick(g, R), []string{perm()}
			if g.P(30) {
				o.Args = append(o.Args, perm())
			}
		case x < 35:
			o.Op, o.Role, o.Args = "revoke", Pick(g, R), []string{perm()}
		default:
			o.Op = "edge"
			if g.P(75) {
				a := g.Int(0, n-2)
				o.Role, o.Args = R[a], []string{R[g.Int(a+1, n-1)]}
				if n > 9 && g.P(80) {
					o.Args[0] = R[a+1]
				}
			} else {
				o.Role, o.Args = Pick(g, R), []string{Pick(g, R)}
			}
			for g.P(25) {
				o.Args = append(o.Args, Pick(g, R))
			}
			o.Spare = g.Int(0, 2)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

func set2text(m map[string]struct{}) string {
	s := make([]string, 0, len(m))
	for k := range m {
		s = append(s, strconv.Quote(k))
	}
	sort.Strings(s)
	return strings.Join(s, " ")
}

var _ = Register("C03",
	"histories over a RoleDAG: registering roles (again, with a new object of the same name), edges with one or several children, granting and revoking permissions on the registered objects, resolutions in between whose results are kept, checked again at the end or overwritten by the caller, as are the argument lists; oracle: graph reachability; non-trivial: an edge is refused, or a role inherits from another",
	1, genDag, func(c dagCase, ctx *Ctx) error {
		dag := v2.NewRoleDAG()
		m := newV2Model()
		obj := map[string]*v2.Role{}
		type kept struct {
			what, text string
			m          map[string]struct{}
		}
		var keep []kept
		split := func(p string) *v2.Permission {
			r, a, _ := strings.Cut(p, " ")
			return v2.NewPermission("", r, a)
		}
		resolve := func(when, r string, odd int) error {
			cl := m.closure(r)
			perms := map[string]struct{}{}
			roles := map[string]struct{}{}
			for x := range cl {
				if m.roles[x] == nil {
					continue
				}
				if x != r {
					roles[x] = struct{}{}
					ctx.NonTrivial()
				}
				for p := range m.roles[x].perms {
					perms[p] = struct{}{}
				}
			}
			if m.roles[r] == nil {
				perms, roles = nil, nil
				ctx.Label("unregistered role resolved")
			}
			ctx.Queries += 2
			var gotP, gotR map[string]struct{}
			if odd%2 == 0 {
				gotR = dag.ResolveChildRoles(r)
				gotP = dag.ResolvePermissions(r)
			} else {
				gotP = dag.ResolvePermissions(r)
				gotR = dag.ResolveChildRoles(r)
			}
			if g, w := set2text(gotP), set2text(perms); g != w {
				return fmt.Errorf("%s: ResolvePermissions(%q) = %s, reachable: %s", when, r, g, w)
			}

			own := map[string]struct{}{}
			for x := range gotR { // whether a role counts itself is of no consequence
				if x != r {
					own[x] = struct{}{}
				}
			}
			if g, w := set2text(own), set2text(roles); g != w {
				return fmt.Errorf("%s: ResolveChildRoles(%q) = %s, reachable: %s", when, r, g, w)
			}
			if odd%3 == 0 {
				for _, x := range []map[string]struct{}{gotP, gotR} {
					if x != nil {
						clear(x)
						x["spoiled"] = struct{}{}
						if len(c.Roles) > 0 {
							x[c.Roles[odd%len(c.Roles)]] = struct{}{}
						}
					}
				}
			} else {
				keep = append(keep, kept{fmt.Sprintf("%s: ResolvePermissions(%q)", when, r), set2text(gotP), gotP},
					kept{fmt.Sprintf("%s: ResolveChildRoles(%q)", when, r), set2text(gotR), gotR})
			}
			return nil
		}
		for k, o := range c.Ops {
			when := fmt.Sprintf("after op %d (%s %q %q)", k, o.Op, o.Role, o.Args)
			switch o.Op {
			case "role":
				r := v2.NewRole(o.Role)
				obj[o.Role] = r
				m.roles[o.Role] = &v2mRole{name: o.Role, perms: map[string]bool{}}
				for _, p := range o.Args {
					r.AddPermission(split(p))
					m.roles[o.Role].perms[p] = true
				}
				dag.AddRole(r)
			case "grant", "revoke":
				if obj[o.Role] == nil {
					continue
				}
				var ps []*v2.Permission
				for _, p := range o.Args {
					ps = append(ps, split(p))
					if o.Op == "grant" {
						m.roles[o.Role].perms[p] = true
					} else {
						delete(m.roles[o.Role].perms, p)
					}
				}
				if o.Op == "grant" {
					obj[o.Role].AddPermission(ps...)
				} else {
					obj[o.Role].RemovePermission(ps...)
				}
			case "chain", "fan": // many roles between Role and Args
				if len(o.Args) != 1 {
					continue
				}
				prev := o.Role
				link := func(child string) error {
					cyc := m.reaches(child, prev)
					if err := dag.AddChildRole(prev, child); (err != nil) != cyc {
						return fmt.Errorf("op %d: AddChildRole(%q, %q): error %v, closes a cycle: %v", k, prev, child, err, cyc)
					}
					if !cyc {
						m.edges[prev] = append(m.edges[prev], child)
					}
					return nil
				}
				for i := 0; i < o.N; i++ {
					f := "f" + strconv.Itoa(i)
					if m.roles[f] == nil {
						obj[f] = v2.NewRole(f)
						m.roles[f] = &v2mRole{name: f, perms: map[string]bool{}}
						dag.AddRole(obj[f])
					}
					if err := link(f); err != nil {
						return err
					}
					if o.Op == "chain" {
						prev = f
					}
				}
				if err := link(o.Args[0]); err != nil {
					return err
				}
				ctx.Label("%s of many", o.Op)
			case "edge":
				if len(o.Args) == 0 {
					continue
				}
				cyc := false
				for _, ch := range o.Args {
					cyc = cyc || m.reaches(ch, o.Role)
				}
				args := make([]string, len(o.Args), len(o.Args)+max(0, o.Spare))
				copy(args, o.Args)
				err := dag.AddChildRole(o.Role, args...)
				for i := range args {
					if args[i] != o.Args[i] {
						return fmt.Errorf("%s: the list of children handed over reads %q", when, args)
					}
					args[i] = o.Role // the caller's list is the caller's
				}
				if (err != nil) != cyc {
					return fmt.Errorf("op %d: AddChildRole(%q, %q): error %v, closes a cycle: %v", k, o.Role, o.Args, err, cyc)
				}
				if cyc {
					ctx.Label("edge refused")
					ctx.NonTrivial()
				} else {
					m.edges[o.Role] = append(m.edges[o.Role], o.Args...)
				}
			}
			for i, r := range o.Query {
				if err := resolve(when, r, k+i); err != nil {
					return err
				}
			}
		}
		for pass := 0; pass < 2; pass++ {
			for i, r := range c.Roles {
				if len(c.Roles) > 20 && i%7 != 0 {
					continue
				}
				if err := resolve("at the end", r, i); err != nil {
					return err
				}
			}
		}
		for _, x := range keep {
			if t := set2text(x.m); t != x.text {
				return fmt.Errorf("%s = %s, which later reads %s", x.what, x.text, t)
			}
		}
		if len(c.Roles) > 9 {
			ctx.Label("many roles")
		}
		return nil
	})
