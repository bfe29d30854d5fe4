package harness

import (
	"fmt"
	"slices"
	"strconv"

	"pgregory.net/rapid"
)

// v2Gen draws v2 configurations, histories and requests.
type v2Gen struct {
	g          G
	c          v2Case
	tids       []string // tenant ids
	nss        []string
	scopes     []string
	principals []string
	roleNames  []string
	prs        []v2PR
	perms      map[string][][2]string
	permAt     map[int][][2]string // by role object
	edges      map[string][]string
	parents    map[string][]string // tenant id -> parent ids
	tns        map[string][]string // namespaces by tenant id
	tsc        map[string][]string // scopes by tenant id + ns
	def        string
	expiry     bool
}

type v2Sizes struct {
	wide, deep, many bool
}

func (x *v2Gen) op(o v2Op) { x.c.Ops = append(x.c.Ops, o) }

func newV2Gen(t *rapid.T) *v2Gen {
	g := G{t}
	x := &v2Gen{g: g, perms: map[string][][2]string{}, permAt: map[int][][2]string{}, edges: map[string][]string{}, parents: map[string][]string{}, tns: map[string][]string{}, tsc: map[string][]string{}}
	odd := g.OddPool(35)
	nT, nR := g.Int(1, 4), g.Int(1, 5)
	if g.P(5) {
		nT = g.Int(11, 14)
	}
	if g.P(4) {
		nR = g.Int(20, 45)
	}
	if g.P(1) {
		nT = g.Big()
	}
	if g.P(1) {
		nR = g.Big()
	}
	x.tids = g.IDs(nT, "T", odd)
	x.roleNames = g.IDs(nR, "R", odd)
	x.principals = g.IDs(g.Int(1, 3), "p", odd)
	nN, nS := g.Int(1, 3), g.Int(1, 3)
	if g.P(2) {
		nN = g.Int(8, 20)
	}
	if g.P(2) {
		nS = g.Big()
	}
	x.nss = g.IDs(nN, "N", odd)
	x.scopes = g.IDs(nS, "S", odd)
	if g.P(6) {
		ids := Pick(g, [][]string{x.roleNames, x.principals})
		ids[g.Int(0, len(ids)-1)] = ""
	}
	for _, id := range x.tids {
		d := v2TenantDef{ID: id}
		if g.P(40) {
			d.NS = Pick(g, x.nss)
			x.tns[id] = append(x.tns[id], d.NS)
		}
		x.c.Tenants = append(x.c.Tenants, d)
	}
	x.c.Roles = append(x.c.Roles, x.roleNames...)
	if g.P(10) { // a second tenant object of the same id, never in the hierarchy
		x.c.Tenants = append(x.c.Tenants, v2TenantDef{ID: Pick(g, x.tids), NS: Pick(g, x.nss)})
	}
	if g.P(15) {
		x.c.Roles = append(x.c.Roles, Pick(g, x.roleNames))
	}
	return x
}

// setup configures most of everything.
func (x *v2Gen) setup() {
	g := x.g
	from := len(x.c.Ops)
	for i := range x.tids {
		if g.P(92) {
			x.op(v2Op{K: "tenant", H: i, F: g.P(20)})
		}
		for _, ns := range x.nss {
			if g.P(45) {
				x.addNS(i, ns)
			}
		}
		if len(x.tns[x.tids[i]]) == 0 && g.P(85) {
			x.addNS(i, Pick(g, x.nss))
		}
		for _, ns := range x.tns[x.tids[i]] {
			if ss := Some(g, x.scopes, 80); len(ss) > 0 {
				x.op(v2Op{K: "scope", H: i, A: ns, S: ss})
				x.tsc[x.tids[i]+"\x00"+ns] = append(x.tsc[x.tids[i]+"\x00"+ns], ss...)
			}
		}
	}
	line := g.P(15)
	for i := 1; i < len(x.tids); i++ {
		switch {
		case line && g.P(96):
			x.addChild(i-1, i)
		case g.P(60):
			x.addChild(g.Int(0, i-1), i)
		}
	}
	if line && g.P(60) { // somebody manages them all the way down
		p := Pick(g, x.principals)
		for i, t := range x.tids {
			if g.P(97) {
				x.assign(v2PR{Principal: p, Tenant: t, Role: x.roleNames[i%len(x.roleNames)], Manage: true})
			}
		}
	}
	if g.P(8) && len(x.tids) > 1 { // any shape, cycles included
		x.addChild(g.Int(0, len(x.tids)-1), g.Int(0, len(x.tids)-1))
	}
	for i, n := range x.roleNames {
		if g.P(92) {
			x.op(v2Op{K: "role", H: i, F: g.P(20)})
		}
		k := g.Int(0, 2)
		if len(x.roleNames) < 10 && g.P(5) {
			k = g.Int(10, 30)
			if g.P(15) {
				k = g.Big()
			}
		}
		if k > 0 {
			x.addPerms(i, n, k)
		}
	}
	for i := len(x.roleNames); i < len(x.c.Roles); i++ { // another object of a name
		if g.P(40) {
			x.op(v2Op{K: "role", H: i})
			if g.P(50) {
				x.addPerms(i, x.c.Roles[i], 1)
			}
		}
	}
	for i := len(x.tids); i < len(x.c.Tenants); i++ {
		if g.P(40) {
			x.op(v2Op{K: "tenant", H: i})
		}
	}
	chain := len(x.roleNames) > 10 || g.P(15)
	for i := 1; i < len(x.roleNames); i++ {
		switch {
		case chain && g.P(90):
			x.addEdge(x.roleNames[i-1], x.roleNames[i])
		case g.P(45):
			x.addEdge(x.roleNames[g.Int(0, i-1)], x.roleNames[i])
		}
	}
	x.c.Ops = join(g, x.c.Ops, from, func(o v2Op) string {
		switch o.K {
		case "tenant", "role":
			return o.K
		case "child", "perm", "scope", "edge":
			return fmt.Sprintf("%s %d %q", o.K, o.H, o.A)
		}
		return ""
	}, func(into *v2Op, o v2Op) {
		if o.K == "tenant" || o.K == "role" {
			into.F = true
			into.L = append(slices.Clip(into.L), o.H)
		}
		into.L, into.S = append(slices.Clip(into.L), o.L...), append(slices.Clip(into.S), o.S...)
	})
	n := g.Int(1, 6)
	if g.P(4) {
		n = g.Int(20, 60)
		if g.P(15) {
			n = g.Big()
		}
	}
	if len(x.tids) > 10 {
		n = 0
		p := Pick(g, x.principals)
		for _, t := range x.tids {
			pr := x.drawPR()
			pr.Principal, pr.Tenant = p, t
			x.assign(pr)
		}
	}
	for i := 0; i < n; i++ {
		x.assign(x.drawPR())
	}
}

// bulk adds a lot of one thing, in one step, at the place where it matters.
func (x *v2Gen) bulk() {
	g := x.g
	if raceOn {
		return
	}
	n := g.Huge()
	p := Pick(g, x.principals)
	i, j := g.Int(0, len(x.roleNames)-1), g.Int(0, len(x.roleNames)-1)
	s, t := g.Int(0, len(x.tids)-1), g.Int(0, len(x.tids)-1)
	mine := func(tenant int, role string, k int) { // so that requests go there
		pr := v2PR{Principal: p, Tenant: x.tids[tenant], Role: role}
		x.assign(pr)
		for ; k > 0; k-- {
			x.prs = append(x.prs, pr)
		}
	}
	if x.perms[x.roleNames[j]] == nil {
		x.addPerms(j, x.roleNames[j], 1)
	}
	switch g.Int(0, 6) {
	case 0:
		x.op(v2Op{K: "chain", A: x.roleNames[i], B: x.roleNames[j], N: n})
		x.edges[x.roleNames[i]] = []string{x.roleNames[j]}
		mine(s, x.roleNames[i], 8)
	case 1:
		x.op(v2Op{K: "tline", H: s, L: []int{t}, A: p, N: n})
		x.parents[x.tids[t]] = []string{x.tids[s]}
		mine(t, x.roleNames[j], 8)
	case 2:
		x.op(v2Op{K: "twide", A: p, B: Pick(g, x.nss), N: n})
		mine(t, x.roleNames[j], 8)
		x.c.Probes = append(x.c.Probes, v2Req{Principal: p, Resource: "/a", Action: "GET"})
	case 3:
		x.op(v2Op{K: "nsfill", H: t, N: n})
		mine(t, x.roleNames[j], 4)
	case 4: // permissions
		o := v2Op{K: "perm", H: j}
		for k := 0; k < n; k++ {
			o.S = append(o.S, "/f"+strconv.Itoa(k), "GET")
		}
		at := 2 * g.Int(0, n-1)
		o.S[at], o.S[at+1] = "/last/:x", "GET"
		x.op(o)
		for k := 0; k < 4; k++ {
			x.perms[x.roleNames[j]] = append(x.perms[x.roleNames[j]], [2]string{"/last/:x", "GET"})
		}
		mine(t, x.roleNames[j], 4)
	case 5: // scopes
		ns := x.tns[x.tids[t]]
		if len(ns) == 0 {
			return
		}
		o := v2Op{K: "scope", H: t, A: Pick(g, ns)}
		for k := 0; k < n; k++ {
			o.S = append(o.S, "f"+strconv.Itoa(k))
		}
		o.S = append(o.S, x.scopes...)
		x.op(o)
		x.tsc[x.tids[t]+"\x00"+o.A] = append(x.tsc[x.tids[t]+"\x00"+o.A], x.scopes...)
		mine(t, x.roleNames[j], 4)
	default: // assignments: of others, or of one's own with other roles, namespaces or scopes
		o := v2Op{K: "assign"}
		kind := g.Int(0, 3)
		for k := 0; k < n; k++ {
			f := "f" + strconv.Itoa(k)
			pr := v2PR{Principal: p, Tenant: x.tids[t], Role: f}
			switch kind {
			case 1:
				pr.Principal = f
			case 2:
				pr.Namespace = f
			case 3:
				pr.Scope = f
			}
			o.PL = append(o.PL, pr)
		}
		x.op(o)
		mine(t, x.roleNames[j], 8)
	}
}

// churn asks a lot of questions at once.
func (x *v2Gen) churn(canPc int) {
	g := x.g
	if raceOn {
		return
	}
	r := x.request(g.P(canPc))
	x.op(v2Op{K: "churn", A: Pick(g, []string{"principal", "resource", "tenant", "same"}), R: &r, N: Pick(g, []int{70, 140, 270, 530, 1030})})
}

// spinCount is one less than what small counters wrap around at.
func spinCount(g G) int {
	if n, ok := g.hinted(3, 5000); ok {
		return n
	}
	if g.P(12) {
		return 65535
	}
	return Pick(g, []int{255, 255, 255, 256, 127, 511, 1023})
}

// spin makes a change and then so many that do not matter that a counter of
// changes could be back where it was.
func (x *v2Gen) spin() {
	g := x.g
	if raceOn {
		return
	}
	at := len(x.c.Ops)
	for i := 0; i < 4 && len(x.c.Ops) != at+1; i++ {
		at = len(x.c.Ops)
		x.mutate()
	}
	x.op(v2Op{K: "spin", A: Pick(g, []string{"role", "tenant", "perm", "assign", "edge"}), H: g.Int(0, len(x.c.Roles)-1), N: spinCount(g)})
}

func (x *v2Gen) addNS(h int, ns string) {
	id := x.c.Tenants[h].ID
	x.op(v2Op{K: "ns", H: h, A: ns, F: x.g.P(20), N: x.g.Int(0, 1)})
	for _, n := range x.tns[id] {
		if n == ns {
			return
		}
	}
	x.tns[id] = append(x.tns[id], ns)
}

func (x *v2Gen) addChild(p, c int) {
	x.op(v2Op{K: "child", H: p, L: []int{c}})
	x.parents[x.tids[c]] = append(x.parents[x.tids[c]], x.tids[p])
}

func (x *v2Gen) addPerms(h int, name string, k int) {
	o := v2Op{K: "perm", H: h}
	for i := 0; i < k; i++ {
		p := [2]string{x.g.PermResource(), x.g.PermAction()}
		if k > 5 {
			p[0] = "/r" + strconv.Itoa(i)
		}
		o.S = append(o.S, p[0], p[1])
		x.perms[name] = append(x.perms[name], p)
		x.permAt[h] = append(x.permAt[h], p)
	}
	x.op(o)
}

func (x *v2Gen) addEdge(p string, c ...string) {
	x.op(v2Op{K: "edge", A: p, S: c})
	x.edges[p] = append(x.edges[p], c...)
}

func (x *v2Gen) drawPR() v2PR {
	g := x.g
	p := v2PR{Principal: Pick(g, x.principals), Tenant: Pick(g, x.tids), Role: Pick(g, x.roleNames), Manage: g.P(35)}
	if g.P(3) {
		p.Role = ""
	}
	if g.P(1) {
		*Pick(g, []*string{&p.Principal, &p.Tenant}) = ""
	}
	if g.P(45) {
		p.Namespace = Pick(g, x.nss)
		if ns := x.tns[p.Tenant]; len(ns) > 0 && g.P(70) {
			p.Namespace = Pick(g, ns)
		}
	}
	if g.P(45) {
		p.Scope = Pick(g, x.scopes)
		if ns := x.tns[p.Tenant]; len(ns) > 0 && g.P(70) {
			n := p.Namespace
			if n == "" {
				n = ns[0]
			}
			if ss := x.tsc[p.Tenant+"\x00"+n]; len(ss) > 0 {
				p.Scope = Pick(g, ss)
			}
		}
	}
	if g.P(12) {
		e := int64(3600e9)
		if g.P(50) {
			e = -e
		}
		p.Expiry = &e
	}
	return p
}

func (x *v2Gen) assign(p ...v2PR) {
	x.op(v2Op{K: "assign", PL: p})
	x.prs = append(x.prs, p...)
}

// walk follows child edges from a role.
func (x *v2Gen) walk(role string) string {
	far := x.g.P(20)
	for i := 0; i < 400; i++ {
		next := x.edges[role]
		if len(next) == 0 || !far && x.g.P(30) {
			break
		}
		role = Pick(x.g, next)
	}
	return role
}

// request draws a request near the configuration.
func (x *v2Gen) request(can bool) v2Req {
	g := x.g
	r := v2Req{Principal: Pick(g, x.principals), Tenant: Pick(g, x.tids), Can: can}
	role := Pick(g, x.roleNames)
	if len(x.prs) > 0 && g.P(92) {
		pr := Pick(g, x.prs)
		r.Principal, r.Tenant, r.Namespace, r.Scope, role = pr.Principal, pr.Tenant, pr.Namespace, pr.Scope, pr.Role
		switch k := g.Int(0, 19); {
		case k >= 14:
			r.Tenant = ""
		case k >= 10:
			far := g.P(40)
			for i := 0; i < 300 && len(x.parents[r.Tenant]) > 0 && (i == 0 || far || i < 3 && g.P(50)); i++ {
				r.Tenant = Pick(g, x.parents[r.Tenant])
			}
		case k == 9:
			r.Tenant = Pick(g, x.tids)
		}
		if r.Namespace == "" && r.Tenant != "" && len(x.tns[r.Tenant]) > 0 && g.P(50) {
			r.Namespace = Pick(g, x.tns[r.Tenant])
		}
		if r.Namespace != "" && g.P(15) {
			r.Namespace = ""
		}
		if g.P(6) {
			r.Namespace = Pick(g, x.nss)
		}
		if r.Scope == "" && g.P(35) {
			if ss := x.tsc[r.Tenant+"\x00"+r.Namespace]; len(ss) > 0 {
				r.Scope = Pick(g, ss)
			} else {
				r.Scope = Pick(g, x.scopes)
			}
		} else if g.P(10) {
			r.Scope = ""
		}
		if g.P(5) {
			r.Principal = Pick(g, x.principals)
		}
	} else {
		if g.P(50) {
			r.Tenant = ""
		}
		if g.P(50) {
			r.Namespace = Pick(g, x.nss)
		}
		if g.P(50) {
			r.Scope = Pick(g, x.scopes)
		}
	}
	if g.P(2) {
		*Pick(g, []*string{&r.Tenant, &r.Namespace, &r.Scope, &r.Principal}) = "unknown"
	}
	if g.P(1) {
		r.Principal = ""
	}
	role = x.walk(role)
	if can {
		r.Roles = []string{role}
		if g.P(20) {
			r.Roles = append([]string{Pick(g, x.roleNames)}, r.Roles...)
		}
		if g.P(20) {
			r.Roles = []string{Pick(g, x.roleNames)}
		}
		if g.P(10) {
			r.Roles = append(r.Roles, "unknown", Pick(g, x.roleNames))
		}
		if g.P(3) {
			r.Roles = nil
		}
		if g.P(2) { // a long list
			var many []string
			for i := g.Big(); i > 0; i-- {
				many = append(many, "x"+strconv.Itoa(i))
			}
			at := g.Int(0, len(many))
			r.Roles = append(append(append([]string{}, many[:at]...), r.Roles...), many[at:]...)
		}
		return r
	}
	ps := x.perms[role]
	if len(ps) == 0 || g.P(8) {
		for _, n := range x.roleNames {
			ps = append(ps, x.perms[n]...)
		}
	}
	if len(ps) == 0 || g.P(5) {
		r.Resource, r.Action = g.Instance(g.PermResource()), g.Instance(g.PermAction())
		return r
	}
	p := Pick(g, ps)
	r.Resource, r.Action = g.Instance(p[0]), g.Instance(p[1])
	if g.P(15) {
		r.Resource = g.Near(r.Resource)
	}
	if g.P(8) {
		r.Action = Pick(g, verbs)
	}
	return r
}

// criteria of a removal, mostly hitting something.
func (x *v2Gen) criteria() v2PR {
	g := x.g
	p := x.drawPR()
	if len(x.prs) > 0 && g.P(85) {
		p = Pick(g, x.prs)
	}
	p.Expiry = nil
	p.Manage = false
	for _, f := range []*string{&p.Principal, &p.Tenant, &p.Namespace, &p.Scope, &p.Role} {
		if g.P(30) {
			*f = ""
		}
	}
	if p == (v2PR{}) && g.P(70) {
		p.Principal = Pick(g, x.principals)
	}
	return p
}

// mutate draws one configuration step.
func (x *v2Gen) mutate() {
	g := x.g
	nT := len(x.tids)
	switch k := g.Int(0, 99); {
	case k < 4 && len(x.prs) > 0:
		p := Pick(g, x.prs)
		x.op(v2Op{K: "again", P: &p})
	case k < 22:
		ps := []v2PR{x.drawPR()}
		for g.P(25) {
			ps = append(ps, x.drawPR())
		}
		x.assign(ps...)
	case k < 38:
		p := x.criteria()
		x.op(v2Op{K: "unassign", P: &p})
	case k < 46:
		h := g.Int(0, len(x.c.Roles)-1)
		x.addPerms(h, x.c.Roles[h], g.Int(1, 2))
	case k < 54:
		h := g.Int(0, len(x.c.Roles)-1)
		o := v2Op{K: "unperm", H: h}
		for i := 0; i == 0 || g.P(40); i++ {
			p := [2]string{g.PermResource(), g.PermAction()} // most likely not held
			if ps := x.permAt[h]; len(ps) > 0 && g.P(80) {
				p = Pick(g, ps)
			}
			o.S = append(o.S, p[0], p[1])
		}
		x.op(o)
	case k < 64:
		var cs []string
		for i := 0; i == 0 || g.P(25); i++ {
			cs = append(cs, Pick(g, x.roleNames))
		}
		x.addEdge(Pick(g, x.roleNames), cs...)
	case k < 70:
		x.op(v2Op{K: "role", H: g.Int(0, len(x.c.Roles)-1)})
	case k < 76:
		x.op(v2Op{K: "tenant", H: g.Int(0, len(x.c.Tenants)-1)})
	case k < 81:
		x.addNS(g.Int(0, len(x.c.Tenants)-1), Pick(g, x.nss))
	case k < 86:
		h := g.Int(0, len(x.c.Tenants)-1)
		ns := Pick(g, x.nss)
		s := Pick(g, x.scopes)
		x.op(v2Op{K: "scope", H: h, A: ns, S: []string{s}})
		x.tsc[x.c.Tenants[h].ID+"\x00"+ns] = append(x.tsc[x.c.Tenants[h].ID+"\x00"+ns], s)
	case k < 90:
		x.addChild(g.Int(0, nT-1), g.Int(0, nT-1))
	case k < 92: // the field is the only way to take the default back
		ns := ""
		if g.P(60) {
			ns = Pick(g, x.nss)
		}
		x.op(v2Op{K: "defns", H: g.Int(0, len(x.c.Tenants)-1), A: ns})
	case k < 96:
		n := 0
		if g.P(50) {
			n = g.Int(1, 4)
		}
		x.op(v2Op{K: "status", H: g.Int(0, len(x.c.Tenants)-1), N: n})
	default:
		x.def = ""
		if g.P(60) {
			x.def = Pick(g, x.tids)
		}
		x.op(v2Op{K: "default", A: x.def})
	}
}

func (x *v2Gen) history(lo, hi int, canPc int) {
	n := x.g.Int(lo, hi)
	for i := 0; i < n; i++ {
		if x.g.P(35) {
			r := x.request(x.g.P(canPc))
			x.op(v2Op{K: "ask", R: &r})
		} else if g := x.g; g.P(1) && g.P(12) {
			x.churn(canPc)
		} else if g.P(1) && g.P(25) {
			x.spin()
		} else {
			x.mutate()
		}
	}
}

func (x *v2Gen) probes(n, canPc int) {
	for i := 0; i < n; i++ {
		x.c.Probes = append(x.c.Probes, x.request(x.g.P(canPc)))
	}
}
