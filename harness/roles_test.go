package harness

import (
	"encoding/json"
	"fmt"
	"sort"
	"strconv"
	"strings"

	"pgregory.net/rapid"

	permission "github.com/oarkflow/permission"
	v1 "github.com/oarkflow/permission/v1"
)

// ---------------------------------------------------------------- C14: roles and attribute groups (main package and v1)

type roleCase struct {
	V1     bool
	Roles  []string // objects; ids may repeat
	Groups []string // attribute group objects
	Ops    []roleOp
	Probes []roleProbe
}

type roleOp struct {
	K string   // perm, group, gadd, edge, lock, unlock, regR, regG, padd
	H int      `json:",omitempty"`
	L []int    `json:",omitempty"`
	A string   `json:",omitempty"` // attribute group id, or role id
	S []string `json:",omitempty"` // resource, action, ...
}

type roleProbe struct {
	R       int
	G, A    string
	Allowed []string `json:",omitempty"`
}

// roleLib is what the two packages have in common.
type roleLib interface {
	newRole(id string)
	newGroup(id string)
	perm(h int, group string, s []string) error
	group(h, g int) error
	gadd(g int, s []string)
	edge(h int, l []int) error
	lock(h int, on bool)
	regR(h int)
	regG(g int)
	padd(role, group string, s []string) error
	has(h int, group, activity string, allowed []string) bool
	below(h int) []int
	perms(h int, scribble bool) map[string][]string
	stillKept() error // results returned earlier are as they were
	groupPerms(h int, group string) []string
	implicit(h int) map[string][]string
	implicitInto(h int) map[string][]string
}

type rootRoles struct {
	keptMaps[permission.Attribute]
	u  *permission.RoleManager
	rs []*permission.Role
	gs []*permission.AttributeGroup
}

func (x *rootRoles) newRole(id string)  { x.rs = append(x.rs, permission.NewRole(id)) }
func (x *rootRoles) newGroup(id string) { x.gs = append(x.gs, permission.NewAttributeGroup(id)) }
func (x *rootRoles) perm(h int, g string, s []string) error {
	return x.rs[h].AddPermission(g, attrs(s)...)
}
func (x *rootRoles) group(h, g int) error   { return x.rs[h].AddPermissionResourceGroup(x.gs[g]) }
func (x *rootRoles) gadd(g int, s []string) { x.gs[g].AddAttributes(attrs(s)...) }
func (x *rootRoles) edge(h int, l []int) error {
	var ds []*permission.Role
	for _, i := range l {
		ds = append(ds, x.rs[i])
	}
	return x.rs[h].AddDescendant(ds...)
}
func (x *rootRoles) lock(h int, on bool) {
	if on {
		x.rs[h].Lock()
	} else {
		x.rs[h].Unlock()
	}
}
func (x *rootRoles) regR(h int) { x.u.AddRole(x.rs[h]) }
func (x *rootRoles) regG(g int) { x.u.AddAttributeGroup(x.gs[g]) }
func (x *rootRoles) padd(r, g string, s []string) error {
	return x.u.AddPermissionsToRole(r, g, attrs(s)...)
}
func (x *rootRoles) has(h int, g, a string, allowed []string) bool {
	return x.rs[h].Has(g, a, allowed...)
}
func (x *rootRoles) below(h int) (out []int) {
	ds := x.rs[h].GetDescendantRoles()
	defer clear(ds)
	for _, d := range ds {
		k := -1
		for i := range x.rs {
			if x.rs[i] == d {
				k = i
			}
		}
		out = append(out, k)
	}
	sort.Ints(out)
	return
}
func (x *rootRoles) perms(h int, scribble bool) map[string][]string {
	m := x.rs[h].GetPermissions()
	out := attrStrings(m)
	if scribble {
		for g := range m {
			for i := range m[g] {
				m[g][i] = *permission.NewAttribute("*", "*")
			}
			m[g] = append(m[g], *permission.NewAttribute("/scribble", "GET"))
		}
		m["scribble"] = append(m["scribble"], *permission.NewAttribute("*", "*"))
	} else {
		x.keep(m)
	}
	return out
}
func (x *rootRoles) groupPerms(h int, g string) (out []string) {
	as := x.rs[h].GetResourceGroupPermissions(g)
	for i, a := range as {
		if str := a.String(); a.String("|") == withDelim(str, a.String("|")) {
			out = append(out, str)
		}
		as[i] = nil
	}
	sort.Strings(out)
	return
}
func (x *rootRoles) implicit(h int) map[string][]string {
	m := x.rs[h].GetAllImplicitPermissions()
	out := attrStrings(m)
	if x.n++; x.n%2 == 0 {
		for g := range m {
			clear(m[g])
			m[g] = append(m[g], *permission.NewAttribute("*", "*"))
		}
	} else {
		x.keep(m)
	}
	return out
}
func (x *rootRoles) implicitInto(h int) map[string][]string {
	return attrStrings(x.rs[h].GetAllImplicitPermissions(map[string][]permission.Attribute{"kept": {*permission.NewAttribute("/kept", "GET")}}))
}

type v1Roles struct {
	keptMaps[v1.Attribute]
	u  *v1.RoleManager
	rs []*v1.Role
	gs []*v1.AttributeGroup
}

func attrs1(s []string) (out []*v1.Attribute) {
	for i := 0; i+1 < len(s); {
		if acts := sameResource(s[i:]); len(acts) > 1 {
			out = append(out, v1.NewAttributes(s[i], acts...)...)
			i += 2 * len(acts)
			continue
		}
		out = append(out, v1.NewAttribute(s[i], s[i+1]))
		i += 2
	}
	return
}

// sameResource: the actions of the first resource, as far as it repeats.
func sameResource(s []string) (acts []string) {
	for i := 0; i+1 < len(s) && s[i] == s[0]; i += 2 {
		acts = append(acts, s[i+1])
	}
	return
}

func (x *v1Roles) newRole(id string)  { x.rs = append(x.rs, v1.NewRole(id)) }
func (x *v1Roles) newGroup(id string) { x.gs = append(x.gs, v1.NewAttributeGroup(id)) }
func (x *v1Roles) perm(h int, g string, s []string) error {
	return x.rs[h].AddPermission(g, attrs1(s)...)
}
func (x *v1Roles) group(h, g int) error   { return x.rs[h].AddPermissionResourceGroup(x.gs[g]) }
func (x *v1Roles) gadd(g int, s []string) { x.gs[g].AddAttributes(attrs1(s)...) }
func (x *v1Roles) edge(h int, l []int) error {
	var ds []*v1.Role
	for _, i := range l {
		ds = append(ds, x.rs[i])
	}
	return x.rs[h].AddDescendent(ds...)
}
func (x *v1Roles) lock(h int, on bool) {
	if on {
		x.rs[h].Lock()
	} else {
		x.rs[h].Unlock()
	}
}
func (x *v1Roles) regR(h int) { x.u.AddRole(x.rs[h]) }
func (x *v1Roles) regG(g int) { x.u.AddAttributeGroup(x.gs[g]) }
func (x *v1Roles) padd(r, g string, s []string) error {
	return x.u.AddPermissionsToRole(r, g, attrs1(s)...)
}
func (x *v1Roles) has(h int, g, a string, al []string) bool { return x.rs[h].Has(g, a, al...) }
func (x *v1Roles) below(h int) (out []int) {
	ds := x.rs[h].GetDescendantRoles()
	defer clear(ds)
	for _, d := range ds {
		k := -1
		for i := range x.rs {
			if x.rs[i] == d {
				k = i
			}
		}
		out = append(out, k)
	}
	sort.Ints(out)
	return
}
func (x *v1Roles) perms(h int, scribble bool) map[string][]string {
	m := x.rs[h].GetPermissions()
	out := attrStrings(m)
	if scribble {
		for g := range m {
			for i := range m[g] {
				m[g][i] = *v1.NewAttribute("*", "*")
			}
			m[g] = append(m[g], *v1.NewAttribute("/scribble", "GET"))
		}
		m["scribble"] = append(m["scribble"], *v1.NewAttribute("*", "*"))
	} else {
		x.keep(m)
	}
	return out
}
func (x *v1Roles) groupPerms(h int, g string) (out []string) {
	as := x.rs[h].GetResourceGroupPermissions(g)
	for i, a := range as {
		if str := a.String(); a.String("|") == withDelim(str, a.String("|")) {
			out = append(out, str)
		}
		as[i] = nil
	}
	sort.Strings(out)
	return
}
func (x *v1Roles) implicit(h int) map[string][]string {
	m := x.rs[h].GetAllImplicitPermissions()
	out := attrStrings(m)
	if x.n++; x.n%2 == 0 {
		for g := range m {
			clear(m[g])
			m[g] = append(m[g], *v1.NewAttribute("*", "*"))
		}
	} else {
		x.keep(m)
	}
	return out
}
func (x *v1Roles) implicitInto(h int) map[string][]string {
	return attrStrings(x.rs[h].GetAllImplicitPermissions(map[string][]v1.Attribute{"kept": {*v1.NewAttribute("/kept", "GET")}}))
}

// withDelim: s with the space that stands at d's only difference made d's.
func withDelim(s, d string) string {
	for i := range s {
		if i < len(d) && s[i] != d[i] && s[i] == ' ' {
			return s[:i] + "|" + s[i+1:]
		}
	}
	return "-"
}

// keptMaps remembers what was returned and how it looked then.
type keptMaps[A interface{ String(...string) string }] struct {
	n    int
	maps []map[string][]A
	was  []string
}

func (k *keptMaps[A]) keep(m map[string][]A) {
	if len(k.maps) < 20 {
		k.maps = append(k.maps, m)
		k.was = append(k.was, js(attrStrings(m)))
	}
}

func (k *keptMaps[A]) stillKept() error {
	for i, m := range k.maps {
		if now := js(attrStrings(m)); now != k.was[i] {
			return fmt.Errorf("a role's permissions were returned as %s, and the result became %s", k.was[i], now)
		}
	}
	return nil
}

// attrStrings: the distinct permissions by group, sorted; groups without any are left out.
func attrStrings[A interface{ String(...string) string }](m map[string][]A) map[string][]string {
	out := map[string][]string{}
	for g, as := range m {
		var ss []string
		for _, a := range as {
			ss = append(ss, a.String())
		}
		sort.Strings(ss)
		if len(ss) > 0 {
			out[g] = distinct(ss)
		}
	}
	return out
}

func genRoles(t *rapid.T) roleCase {
	g := G{t}
	odd := g.OddPool(35)
	n := g.Int(2, 6)
	shape := g.Int(0, 11)
	if shape < 3 {
		n = g.Int(8, 44)
	}
	if shape == 0 && g.P(20) {
		n = g.Int(100, 300)
		if g.P(8) {
			n = g.Huge()
		}
	}
	star := shape == 3 && g.P(20)
	if star {
		n = g.Big()
	}
	c := roleCase{V1: g.P(50), Roles: g.IDs(n, "R", few(odd, n < 20))}
	roleNames := c.Roles
	if g.P(12) {
		c.Roles = append(append([]string{}, c.Roles...), Pick(g, c.Roles))
	}
	gids := g.IDs(g.Int(1, 3), "g", odd)
	c.Groups = append(c.Groups, gids...)
	if g.P(20) {
		c.Groups = append(c.Groups, Pick(g, gids))
	}
	var drawn [][2]string
	perm := func() []string {
		p := [2]string{g.PermResource(), g.PermAction()}
		if len(drawn) > 0 && g.P(20) {
			p = Pick(g, drawn)
		} else if len(drawn) > 0 && g.P(30) {
			p[0] = drawn[len(drawn)-1][0]
		}
		drawn = append(drawn, p)
		return []string{p[0], p[1]}
	}
	perms := func() (s []string) {
		s = perm()
		for g.P(30) {
			s = append(s, perm()...)
		}
		return
	}
	held := map[string][][2]string{} // group id -> permissions
	for h, id := range c.Groups {
		if g.P(20) { // empty for now
			if g.P(50) {
				c.Ops = append(c.Ops, roleOp{K: "regG", H: h})
			}
			continue
		}
		s := perms()
		c.Ops = append(c.Ops, roleOp{K: "gadd", H: h, S: s})
		for i := 0; i+1 < len(s); i += 2 {
			held[id] = append(held[id], [2]string{s[i], s[i+1]})
		}
		if g.P(85) {
			c.Ops = append(c.Ops, roleOp{K: "regG", H: h})
		}
	}
	for h := range c.Roles {
		if len(c.Roles) < 12 && g.P(85) {
			c.Ops = append(c.Ops, roleOp{K: "regR", H: h})
		}
	}
	// the graph
	switch shape {
	case 0: // chain
		for i := 1; i < n; i++ {
			c.Ops = append(c.Ops, roleOp{K: "edge", H: i - 1, L: []int{i}})
		}
	case 3:
		if star { // one role above all others
			o := roleOp{K: "edge", H: 0}
			for i := 1; i < n; i++ {
				o.L = append(o.L, i)
			}
			c.Ops = append(c.Ops, o)
		}
	case 1: // ladder: exponentially many paths
		for i := 0; i+3 < n; i += 2 {
			c.Ops = append(c.Ops, roleOp{K: "edge", H: i, L: []int{i + 2, i + 3}}, roleOp{K: "edge", H: i + 1, L: []int{i + 2, i + 3}})
		}
	}
	role := func() int { return g.Int(0, len(c.Roles)-1) }
	if g.P(1) { // a large group
		o := roleOp{K: Pick(g, []string{"perm", "gadd"}), A: Pick(g, gids)}
		if o.K == "perm" {
			o.H = g.Int(0, min(3, len(c.Roles)-1))
		}
		k := g.Big()
		if g.P(20) {
			k = g.Huge()
		}
		for i := 0; i < k; i++ {
			o.S = append(o.S, "/f"+strconv.Itoa(i), "GET")
		}
		at := 2 * g.Int(0, k-1)
		o.S[at] = "/last/:x"
		c.Ops = append(c.Ops, o)
		for i := 0; i < 6; i++ {
			drawn = append(drawn, [2]string{"/last/:x", "GET"})
		}
	}
	for k := g.Int(4, 20); k > 0; k-- {
		var o roleOp
		switch g.Int(0, 15) {
		case 0, 1, 2, 3:
			o = roleOp{K: "perm", H: role(), A: Pick(g, gids), S: perms()}
		case 4, 5:
			o = roleOp{K: "group", H: role(), L: []int{g.Int(0, len(c.Groups)-1)}}
		case 6:
			o = roleOp{K: "gadd", H: g.Int(0, len(c.Groups)-1), S: perms()}
		case 7, 8, 9, 10:
			o = roleOp{K: "edge", H: role(), L: []int{role()}}
			if g.P(70) { // mostly downwards
				a, b := min(o.H, o.L[0]), max(o.H, o.L[0])
				o.H, o.L[0] = a, b
			}
			for g.P(20) {
				o.L = append(o.L, role())
			}
		case 11:
			o = roleOp{K: "lock", H: role()}
		case 12:
			o = roleOp{K: "unlock", H: role()}
		case 13:
			o = roleOp{K: "regR", H: role()}
		default:
			gid := Pick(g, gids)
			o = roleOp{K: "padd", A: gid, H: role(), S: nil}
			if ps := held[gid]; len(ps) > 0 && g.P(85) {
				for i := g.Int(1, 2); i > 0; i-- {
					p := Pick(g, ps)
					o.S = append(o.S, p[0], p[1])
				}
			}
			if len(o.S) == 0 || g.P(25) {
				o.S = append(o.S, perm()...)
			}
			if g.P(5) {
				o.A = "unknown"
			}
		}
		c.Ops = append(c.Ops, o)
	}
	for k := g.Int(3, 10); k > 0; k-- {
		p := roleProbe{R: role(), G: Pick(g, gids)}
		if (shape < 2 || star) && g.P(50) {
			p.R = g.Int(0, 1)
		}
		if len(drawn) == 0 {
			perm()
		}
		d := Pick(g, drawn)
		p.A = g.Instance(d[0]) + " " + g.Instance(d[1])
		if g.P(20) {
			p.A = g.Near(p.A)
		}
		if g.P(35) {
			p.Allowed = Some(g, roleNames, 50)
		}
		c.Probes = append(c.Probes, p)
	}
	return c
}

var _ = Register("C14",
	"roles of the main package and of v1: permissions given singly, by shared attribute groups and through the manager, role graphs edge by edge (random, cyclic, chains up to 300, ladders with exponentially many paths), locking and unlocking; oracle: reachability over the graph and the pattern language, refusal while locked leaves everything as it was, attribute groups stay separate; non-trivial: some probe is granted only through inheritance, or a refused step occurs, and some probe is denied",
	1, genRoles, func(c roleCase, ctx *Ctx) error {
		var lib roleLib = &rootRoles{u: permission.New()}
		if c.V1 {
			lib = &v1Roles{u: v1.New()}
		}
		var m []*rmRole
		var locked []bool
		for _, id := range c.Roles {
			lib.newRole(id)
			m = append(m, &rmRole{id: id, perms: map[string]map[string]bool{}, desc: map[string]*rmRole{}})
			locked = append(locked, false)
		}
		gs := make([]map[string]bool, len(c.Groups))
		for i, id := range c.Groups {
			lib.newGroup(id)
			gs[i] = map[string]bool{}
		}
		regR, regG := map[string]int{}, map[string]int{}
		add := func(set map[string]bool, s []string) {
			for i := 0; i+1 < len(s); i += 2 {
				set[s[i]+" "+s[i+1]] = true
			}
		}
		refused, inherited, denied := 0, 0, 0
		check := func(when string) error {
			for i, p := range c.Probes {
				if p.R < 0 || p.R >= len(m) {
					continue
				}
				allowed := map[string]bool{}
				for _, id := range p.Allowed {
					allowed[id] = true
				}
				want := m[p.R].has(p.G, p.A, allowed)
				ctx.Queries++
				if got := lib.has(p.R, p.G, p.A, p.Allowed); got != want {
					return fmt.Errorf("%s: role %d (%s).Has(%q, %q, allowed %v) = %v, want %v", when, p.R, m[p.R].id, p.G, p.A, p.Allowed, got, want)
				}
				_ = i
				if want && !m[p.R].own(p.G, p.A) {
					inherited++
				}
				if !want {
					denied++
				}
			}
			return nil
		}
		full := func() error {
			for i, r := range m {
				if i > 60 {
					break
				}
				var below []int
				bel := r.below()
				for j := range m {
					if bel[m[j]] {
						below = append(below, j)
					}
				}
				if got := lib.below(i); js(got) != js(below) {
					return fmt.Errorf("role %d: descendants %v, want %v", i, got, below)
				}
				own, all := map[string][]string{}, map[string]map[string]bool{}
				for g, ps := range r.perms {
					if len(ps) > 0 {
						own[g] = sortedKeys(ps)
						if got := lib.groupPerms(i, g); js(got) != js(own[g]) {
							return fmt.Errorf("role %d: permissions of group %q %v, want %v", i, g, got, own[g])
						}
					}
				}
				bel[r] = true
				for d := range bel {
					for g, ps := range d.perms {
						for p := range ps {
							if all[g] == nil {
								all[g] = map[string]bool{}
							}
							all[g][p] = true
						}
					}
				}
				flat := map[string][]string{}
				for g := range all {
					flat[g] = sortedKeys(all[g])
				}
				for k := 0; k < 2; k++ {
					if got := lib.perms(i, k == 0); js(got) != js(own) {
						return fmt.Errorf("role %d: permissions %v, want %v", i, got, own)
					}
				}
				if got := lib.implicit(i); js(got) != js(flat) {
					return fmt.Errorf("role %d: implicit permissions %v, want %v", i, got, flat)
				}
				if _, taken := flat["kept"]; !taken {
					flat["kept"] = []string{"/kept GET"}
					if got := lib.implicitInto(i); js(got) != js(flat) {
						return fmt.Errorf("role %d: implicit permissions into a map %v, want %v", i, got, flat)
					}
				}
				ctx.Queries += 5
			}
			return nil
		}
		for k, o := range c.Ops {
			isGroup := o.K == "gadd" || o.K == "regG"
			if o.H < 0 || (!isGroup && o.H >= len(m)) || (isGroup && o.H >= len(gs)) {
				continue
			}
			want, err := false, error(nil)
			switch o.K {
			case "gadd":
				add(gs[o.H], o.S)
				lib.gadd(o.H, o.S)
			case "regG":
				if _, ok := regG[c.Groups[o.H]]; !ok {
					regG[c.Groups[o.H]] = o.H
				}
				lib.regG(o.H)
			case "regR":
				if _, ok := regR[c.Roles[o.H]]; !ok {
					regR[c.Roles[o.H]] = o.H
				}
				lib.regR(o.H)
			case "lock", "unlock":
				locked[o.H] = o.K == "lock"
				lib.lock(o.H, o.K == "lock")
			case "perm":
				if len(o.S) < 2 {
					continue
				}
				if want = locked[o.H]; !want {
					if m[o.H].perms[o.A] == nil {
						m[o.H].perms[o.A] = map[string]bool{}
					}
					add(m[o.H].perms[o.A], o.S)
				}
				err = lib.perm(o.H, o.A, o.S)
			case "group":
				if len(o.L) != 1 || o.L[0] < 0 || o.L[0] >= len(gs) {
					continue
				}
				gid := c.Groups[o.L[0]]
				if want = locked[o.H]; !want && m[o.H].perms[gid] == nil {
					m[o.H].perms[gid] = map[string]bool{}
					for p := range gs[o.L[0]] {
						m[o.H].perms[gid][p] = true
					}
				}
				err = lib.group(o.H, o.L[0])
			case "edge":
				ok := true
				for _, d := range o.L {
					ok = ok && d >= 0 && d < len(m)
				}
				if !ok {
					continue
				}
				if want = locked[o.H]; !want {
					for _, d := range o.L {
						if m[o.H].desc[m[d].id] == nil {
							m[o.H].desc[m[d].id] = m[d]
						}
					}
				}
				err = lib.edge(o.H, o.L)
			case "padd":
				if len(o.S) < 2 {
					continue
				}
				rid := c.Roles[o.H]
				h, okR := regR[rid]
				gh, okG := regG[o.A]
				want = !okR || !okG || locked[h]
				if !want {
					for i := 0; i+1 < len(o.S); i += 2 {
						if !gs[gh][o.S[i]+" "+o.S[i+1]] {
							want = true
						}
					}
				}
				if !want {
					if m[h].perms[o.A] == nil {
						m[h].perms[o.A] = map[string]bool{}
					}
					add(m[h].perms[o.A], o.S)
				}
				err = lib.padd(rid, o.A, o.S)
			default:
				continue
			}
			if (err != nil) != want {
				return fmt.Errorf("op %d %s: error %v, expected one: %v", k, js(o), err, want)
			}
			if want {
				refused++
			}
			if want || len(m) < 20 && k%5 == 4 {
				if err := full(); err != nil {
					return fmt.Errorf("after op %d %s (refused: %v): %w", k, js(o), want, err)
				}
			}
			if len(m) < 20 || k == len(c.Ops)-1 {
				if err := check(fmt.Sprintf("after op %d", k)); err != nil {
					return err
				}
			}
		}
		if err := full(); err != nil {
			return err
		}
		if err := lib.stillKept(); err != nil {
			return err
		}
		if refused > 0 {
			ctx.Label("refused steps")
		}
		if inherited > 0 {
			ctx.Label("inherited grants")
		}
		if len(m) > 50 {
			ctx.Label("over 50 roles")
		}
		ctx.Label("v1=%v", c.V1)
		if (refused > 0 || inherited > 0) && denied > 0 {
			ctx.NonTrivial()
		}
		return nil
	})

// ---------------------------------------------------------------- C16: registries (main package and v1)

type regCase struct {
	V1  bool
	Ops []regOp
}

type regOp struct {
	K   string // tenant, namespace, scope, principal, role, attribute, group
	IDs []string
	One bool // one by one, or all in one call
}

var regKinds = []string{"tenant", "namespace", "scope", "principal", "role", "attribute", "group"}

func genReg(t *rapid.T) regCase {
	g := G{t}
	c := regCase{V1: g.P(50)}
	pool := g.IDs(g.Int(2, 6), "x", g.OddPool(50))
	if g.P(8) {
		pool = g.IDs(g.Int(50, 150), "x", nil)
		if g.P(20) {
			pool = g.IDs(g.Int(150, 600), "x", nil)
		}
	}
	if g.P(15) {
		pool[0] = ""
	}
	for n := g.Int(2, 14); n > 0; n-- {
		o := regOp{K: Pick(g, regKinds), One: g.P(50)}
		for k := g.Int(1, 3); k > 0; k-- {
			o.IDs = append(o.IDs, Pick(g, pool))
		}
		if len(pool) > 10 && g.P(50) {
			o.IDs = append(o.IDs, pool...)
		}
		c.Ops = append(c.Ops, o)
	}
	return c
}

// regLib registers fresh objects and reports which object answers for the id.
type regLib interface {
	add(kind string, ids []string, one bool) []any // the objects made; nil entries: not reported
	returned() []any                               // what the last one-by-one calls returned
	get(kind, id string) (any, bool)
	list(kind string) ([]string, bool)
	total(kind string) int
	summary() (any, map[string]any, string)
}

type rootReg struct {
	u   *permission.RoleManager
	ret []any
}

func splitAttr(id string) (string, string) {
	if i := strings.Index(id, " "); i > 0 {
		return id[:i], id[i+1:]
	}
	return id, "GET"
}

func regAll[T any](ids []string, one bool, ret *[]any, mk func(id string) *T, addOne func(*T) *T, addAll func(...*T)) (out []any) {
	var all []*T
	for _, id := range ids {
		o := mk(id)
		out = append(out, o)
		if one || addAll == nil {
			*ret = append(*ret, addOne(o))
		} else {
			all = append(all, o)
		}
	}
	if len(all) > 0 {
		addAll(all...)
	}
	return
}

func (x *rootReg) add(kind string, ids []string, one bool) []any {
	x.ret = nil
	u := x.u
	switch kind {
	case "tenant":
		return regAll(ids, one, &x.ret, permission.NewTenant, u.AddTenant, u.AddTenants)
	case "namespace":
		return regAll(ids, one, &x.ret, permission.NewNamespace, u.AddNamespace, u.AddNamespaces)
	case "scope":
		return regAll(ids, one, &x.ret, permission.NewScope, u.AddScope, u.AddScopes)
	case "principal":
		return regAll(ids, one, &x.ret, permission.NewPrincipal, u.AddPrincipal, u.AddPrincipals)
	case "role":
		return regAll(ids, one, &x.ret, permission.NewRole, u.AddRole, u.AddRoles)
	case "attribute":
		return regAll(ids, one, &x.ret, func(id string) *permission.Attribute { return permission.NewAttribute(splitAttr(id)) }, u.AddAttribute, u.AddAttributes)
	}
	return regAll(ids, one, &x.ret, permission.NewAttributeGroup, u.AddAttributeGroup, u.AddAttributeGroups)
}
func (x *rootReg) returned() []any { return x.ret }
func found[T any](v *T, ok bool) (any, bool) {
	if !ok {
		return nil, false
	}
	return v, true
}
func (x *rootReg) get(kind, id string) (any, bool) {
	u := x.u
	switch kind {
	case "tenant":
		return found(u.GetTenant(id))
	case "namespace":
		return found(u.GetNamespace(id))
	case "scope":
		return found(u.GetScope(id))
	case "principal":
		return found(u.GetPrincipal(id))
	case "role":
		return found(u.GetRole(id))
	case "attribute":
		return found(u.GetAttribute(id))
	}
	return found(u.GetAttributeGroup(id))
}
func (x *rootReg) list(kind string) ([]string, bool) {
	u := x.u
	f := map[string]func() []string{"tenant": u.Tenants, "namespace": u.Namespaces, "scope": u.Scopes, "principal": u.Principals, "role": u.Roles, "attribute": u.Attributes}[kind]
	if f == nil {
		return nil, false
	}
	return f(), true
}
func (x *rootReg) total(kind string) int {
	u := x.u
	return map[string]func() int{"tenant": u.TotalTenants, "namespace": u.TotalNamespaces, "scope": u.TotalScopes, "principal": u.TotalPrincipals, "role": u.TotalRoles, "attribute": u.TotalAttributes, "group": u.TotalAttributeGroups}[kind]()
}
func (x *rootReg) summary() (any, map[string]any, string) {
	return x.u.Summary(), x.u.SummaryMap(), x.u.String()
}

type v1Reg struct {
	u   *v1.RoleManager
	ret []any
}

func (x *v1Reg) add(kind string, ids []string, one bool) []any {
	x.ret = nil
	u := x.u
	switch kind {
	case "tenant":
		return regAll(ids, one, &x.ret, v1.NewTenant, u.AddTenant, u.AddTenants)
	case "namespace":
		return regAll(ids, one, &x.ret, v1.NewNamespace, u.AddNamespace, u.AddNamespaces)
	case "scope":
		return regAll(ids, one, &x.ret, v1.NewScope, u.AddScope, u.AddScopes)
	case "principal":
		return regAll(ids, one, &x.ret, v1.NewPrincipal, u.AddPrincipal, u.AddPrincipals)
	case "role":
		return regAll(ids, one, &x.ret, v1.NewRole, u.AddRole, u.AddRoles)
	case "attribute":
		return regAll(ids, one, &x.ret, func(id string) *v1.Attribute { return v1.NewAttribute(splitAttr(id)) }, u.AddAttribute, u.AddAttributes)
	}
	return regAll(ids, one, &x.ret, v1.NewAttributeGroup, u.AddAttributeGroup, u.AddAttributeGroups)
}
func (x *v1Reg) returned() []any { return x.ret }
func (x *v1Reg) get(kind, id string) (any, bool) {
	u := x.u
	switch kind {
	case "tenant":
		return found(u.GetTenant(id))
	case "namespace":
		return found(u.GetNamespace(id))
	case "scope":
		return found(u.GetScope(id))
	case "principal":
		return found(u.GetPrincipal(id))
	case "role":
		return found(u.GetRole(id))
	case "attribute":
		return found(u.GetAttribute(id))
	}
	return found(u.GetAttributeGroup(id))
}
func (x *v1Reg) list(kind string) ([]string, bool) {
	u := x.u
	f := map[string]func() []string{"tenant": u.Tenants, "namespace": u.Namespaces, "scope": u.Scopes, "principal": u.Principals, "role": u.Roles, "attribute": u.Attributes}[kind]
	if f == nil {
		return nil, false
	}
	return f(), true
}
func (x *v1Reg) total(kind string) int {
	u := x.u
	return int(map[string]func() uintptr{"tenant": u.TotalTenants, "namespace": u.TotalNamespaces, "scope": u.TotalScopes, "principal": u.TotalPrincipals, "role": u.TotalRoles, "attribute": u.TotalAttributes, "group": u.TotalAttributeGroups}[kind]())
}
func (x *v1Reg) summary() (any, map[string]any, string) {
	return x.u.Summary(), x.u.SummaryMap(), x.u.String()
}

var _ = Register("C16",
	"registrations of tenants, namespaces, scopes, principals, roles, attributes and attribute groups, singly and in one call, ids repeated within and across kinds, in the main package and in v1; oracle: a map per kind in which the first object of an id stays; non-trivial: an id is registered twice in one kind, and ids are shared between kinds",
	1, genReg, func(c regCase, ctx *Ctx) error {
		var lib regLib = &rootReg{u: permission.New()}
		if c.V1 {
			lib = &v1Reg{u: v1.New()}
		}
		reg := map[string]map[string]any{}
		for _, k := range regKinds {
			reg[k] = map[string]any{}
		}
		key := func(kind, id string) string {
			if kind == "attribute" {
				r, a := splitAttr(id)
				return r + " " + a
			}
			return id
		}
		summaries := func() error {
			sum, m, str := lib.summary()
			want := map[string]any{}
			for k, name := range map[string]string{"tenant": "tenants", "namespace": "namespaces", "scope": "scopes", "principal": "principals", "role": "roles", "attribute": "attributes", "group": "attribute_groups"} {
				want[name] = float64(len(reg[k]))
			}
			for name, got := range map[string]string{"Summary": js(sum), "SummaryMap": js(m), "String": str} {
				var x map[string]any
				if err := json.Unmarshal([]byte(got), &x); err != nil || js(x) != js(want) {
					return fmt.Errorf("%s is %s, want %s (%v)", name, got, js(want), err)
				}
			}
			clear(m)
			return nil
		}
		if err := summaries(); err != nil {
			return fmt.Errorf("before any registration: %w", err)
		}
		twice, all := 0, map[string]bool{}
		for i, o := range c.Ops {
			if reg[o.K] == nil {
				continue
			}
			made := lib.add(o.K, o.IDs, o.One)
			for k, id := range o.IDs {
				if x, ok := made[k].(interface{ ID() string }); ok && o.K != "attribute" && x.ID() != id {
					return fmt.Errorf("op %d: the id of %s %q is %q", i, o.K, id, x.ID())
				}
			}
			for k, id := range o.IDs {
				all[id] = true
				if _, ok := reg[o.K][key(o.K, id)]; ok {
					twice++
				} else {
					reg[o.K][key(o.K, id)] = made[k]
				}
				if o.One {
					if got := lib.returned()[k]; got != reg[o.K][key(o.K, id)] {
						return fmt.Errorf("op %d: adding %s %q does not return the registered one", i, o.K, id)
					}
				}
			}
			if len(all) > 20 && i < len(c.Ops)-1 {
				continue
			}
			for _, k := range regKinds {
				ctx.Queries++
				if got := lib.total(k); got != len(reg[k]) {
					return fmt.Errorf("op %d: %d %ss, want %d", i, got, k, len(reg[k]))
				}
				if got, ok := lib.list(k); ok {
					sort.Strings(got)
					if js(append([]string{}, got...)) != js(sortedKeys(reg[k])) {
						return fmt.Errorf("op %d: the %ss are %q, want %q", i, k, got, sortedKeys(reg[k]))
					}
					for j := range got {
						got[j] = "spoiled"
					}
				}
				for id := range all {
					ctx.Queries++
					want, ok := reg[k][key(k, id)]
					if got, gotOK := lib.get(k, key(k, id)); gotOK != ok || (ok && got != want) {
						return fmt.Errorf("op %d: looking up %s %q: found %v, want %v, the one registered first: %v", i, k, id, gotOK, ok, got == want)
					}
				}
			}
			if err := summaries(); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
		kinds := 0
		for _, k := range regKinds {
			if len(reg[k]) > 0 {
				kinds++
			}
		}
		ctx.Label("v1=%v", c.V1)
		if len(all) > 20 {
			ctx.Label("over 20 ids")
		}
		if twice > 0 && kinds > 1 {
			ctx.NonTrivial()
		}
		return nil
	})
