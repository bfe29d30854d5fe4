package harness

import (
	"fmt"
	"hash/crc32"
	"slices"
	"sort"
	"strings"

	"pgregory.net/rapid"

	v1 "github.com/oarkflow/permission/v1"
)

// ---------------------------------------------------------------- v1: model

type v1Case struct {
	Tenants []string
	NS      []string // namespace objects (tenants may share one)
	Roles   []string
	Scopes  []string
	Ops     []v1Op
	Probes  []rReq
	Ask     [][2]string // tenant, principal
	At      []int       // question i is also asked before this step
}

type v1Op struct {
	K  string
	H  int      `json:",omitempty"` // tenant, namespace or role object
	L  []int    `json:",omitempty"` // further objects
	A  string   `json:",omitempty"`
	B  string   `json:",omitempty"`
	S  []string `json:",omitempty"`
	N  int      `json:",omitempty"` // for a row: namespace object + 1, scope object + 1
	S1 int      `json:",omitempty"`
	F  bool     `json:",omitempty"`
	G  bool     `json:",omitempty"`
	R  *rReq    `json:",omitempty"`
}

type v1mNS struct {
	id            string
	roles, scopes map[string]bool
}

type v1mTenant struct {
	id     string
	ns     map[string]*v1mNS
	roles  map[string]bool
	scopes map[string]bool
	desc   map[string]*v1mTenant
	def    *v1mNS
	known  bool
}

type v1Model struct {
	tenants    map[string]*v1mTenant
	roles      map[string]*rmRole
	principals map[string]bool
	rows       map[v1.TenantPrincipal]bool
}

func (m *v1Model) rowsOf(t, p string) (out []v1.TenantPrincipal) {
	for r := range m.rows {
		if r.TenantID == t && r.PrincipalID == p {
			out = append(out, r)
		}
	}
	return
}

func (m *v1Model) tenantsOf(p string) map[string]bool {
	out := map[string]bool{}
	for r := range m.rows {
		if r.PrincipalID == p {
			out[r.TenantID] = true
		}
	}
	return out
}

// resource decides a request without an activity.
func (m *v1Model) resource(q rReq) bool {
	if !m.principals[q.P] {
		return false
	}
	has := func(f func(r v1.TenantPrincipal) bool) bool {
		for r := range m.rows {
			if r.PrincipalID == q.P && f(r) {
				return true
			}
		}
		return false
	}
	switch {
	case q.T != "" && q.N == "" && q.S == "":
		return m.tenants[q.T] != nil && has(func(r v1.TenantPrincipal) bool { return r.TenantID == q.T })
	case q.T == "" && q.N != "" && q.S == "":
		return has(func(r v1.TenantPrincipal) bool {
			t := m.tenants[r.TenantID]
			return t != nil && t.ns[q.N] != nil
		})
	case q.T == "" && q.N == "" && q.S != "":
		return has(func(r v1.TenantPrincipal) bool {
			t := m.tenants[r.TenantID]
			return t != nil && t.scopes[q.S] && r.ScopeID == q.S
		})
	case q.T != "" && q.N != "" && q.S == "":
		return has(func(r v1.TenantPrincipal) bool { return r.TenantID == q.T && r.NamespaceID == q.N })
	case q.T != "" && q.N == "" && q.S != "":
		return has(func(r v1.TenantPrincipal) bool { return r.TenantID == q.T && r.ScopeID == q.S })
	case q.T == "" && q.N != "" && q.S != "":
		return has(func(r v1.TenantPrincipal) bool { return r.NamespaceID == q.N && r.ScopeID == q.S })
	case q.T != "":
		if has(func(r v1.TenantPrincipal) bool {
			return r.TenantID == q.T && r.NamespaceID == q.N && r.ScopeID == q.S
		}) {
			return true
		}
		if !has(func(r v1.TenantPrincipal) bool { return r.TenantID == q.T }) {
			return false
		}
		for r := range m.rows {
			if r.TenantID == q.T && r.PrincipalID == "" && r.NamespaceID == q.N && r.ScopeID == q.S {
				return true
			}
		}
	}
	return false
}

// activity: may the request be granted, must it be?
func (m *v1Model) activity(q rReq) (may, must bool) {
	if !m.principals[q.P] {
		return false, false
	}
	if q.T == "" {
		if q.N != "" || q.S != "" || q.HG {
			return false, false
		}
		for t := range m.tenantsOf(q.P) {
			if m.tenants[t] == nil {
				continue
			}
			all, own := true, false
			for _, r := range m.rowsOf(t, q.P) {
				if r.NamespaceID != "" || r.ScopeID != "" {
					continue
				}
				all = all && m.tenants[t].roles[r.RoleID]
				if role := m.roles[r.RoleID]; role != nil {
					may = may || role.has("", q.A, nil)
					own = own || role.own("", q.A)
				}
			}
			must = must || (all && own)
		}
		return may, must
	}
	t := m.tenants[q.T]
	if t == nil || (q.N != "" && t.ns[q.N] == nil) || (q.S != "" && !t.scopes[q.S]) {
		return false, false
	}
	for _, role := range m.held(q) {
		may = may || role.has(q.G, q.A, nil)
		must = must || role.own(q.G, q.A)
	}
	return may, must
}

// held: the registered roles assigned for what is asked.
func (m *v1Model) held(q rReq) (out []*rmRole) {
	for _, r := range m.rowsOf(q.T, q.P) {
		if (q.N != "" && r.NamespaceID != "" && r.NamespaceID != q.N) || (q.S != "" && r.ScopeID != "" && r.ScopeID != q.S) {
			continue
		}
		if role := m.roles[r.RoleID]; role != nil {
			out = append(out, role)
		}
	}
	return
}

// through: is it granted if these are all the roles below that count?
func (m *v1Model) through(q rReq, allowed []string) bool {
	set := map[string]bool{}
	for _, r := range allowed {
		set[r] = true
	}
	return slices.ContainsFunc(m.held(q), func(r *rmRole) bool { return r.has(q.G, q.A, set) })
}

// ---------------------------------------------------------------- v1: both sides

type v1World struct {
	results int
	kept    []v1Kept
	c       *v1Case
	m       *v1Model
	mt      []*v1mTenant
	mn      []*v1mNS
	mr      []*rmRole
	u       *v1.RoleManager
	rt      []*v1.Tenant
	rn      []*v1.Namespace
	rr      []*v1.Role
	rs      []*v1.Scope
}

func newV1World(c *v1Case) *v1World {
	w := &v1World{c: c, u: v1.New(), m: &v1Model{tenants: map[string]*v1mTenant{}, roles: map[string]*rmRole{}, principals: map[string]bool{}, rows: map[v1.TenantPrincipal]bool{}}}
	for _, id := range c.Tenants {
		w.rt = append(w.rt, v1.NewTenant(id))
		w.mt = append(w.mt, &v1mTenant{id: id, ns: map[string]*v1mNS{}, roles: map[string]bool{}, scopes: map[string]bool{}, desc: map[string]*v1mTenant{}})
	}
	for _, id := range c.NS {
		w.rn = append(w.rn, v1.NewNamespace(id))
		w.mn = append(w.mn, &v1mNS{id: id, roles: map[string]bool{}, scopes: map[string]bool{}})
	}
	for _, id := range c.Roles {
		w.rr = append(w.rr, v1.NewRole(id))
		w.mr = append(w.mr, &rmRole{id: id, perms: map[string]map[string]bool{}, desc: map[string]*rmRole{}})
	}
	for _, id := range c.Scopes {
		w.rs = append(w.rs, v1.NewScope(id))
	}
	return w
}

func inRange(n int, hs ...int) bool {
	for _, h := range hs {
		if h < 0 || h >= n {
			return false
		}
	}
	return true
}

// step performs the operation on both sides; false: it makes no sense here.
func (w *v1World) step(o v1Op) (bool, error) {
	m := w.m
	roles := func() (out []*v1.Role) {
		for _, i := range o.L {
			out = append(out, w.rr[i])
		}
		return
	}
	scopes := func() (out []*v1.Scope) {
		for _, i := range o.L {
			out = append(out, w.rs[i])
		}
		return
	}
	switch o.K {
	case "spin": // N changes that bear on no question
		if !inRange(len(w.mr), o.H) {
			return false, nil
		}
		far := v1.NewTenant("zz")
		for i := 0; i < o.N; i++ {
			switch o.A {
			case "row":
				w.u.AddPrincipalRole("zz", "zz", far, nil, nil)
			case "role":
				w.u.AddRole(v1.NewRole("zz"))
			case "tenant":
				w.u.AddTenant(v1.NewTenant("zz"))
			case "principal":
				w.u.AddPrincipal(v1.NewPrincipal("zz"))
			case "perm":
				if err := w.rr[o.H].AddPermission("zz", v1.NewAttribute("zz", "zz")); err != nil {
					return true, err
				}
			}
		}
		return true, nil
	case "regP":
		if !o.F {
			m.principals[o.A] = true
			w.u.AddPrincipal(v1.NewPrincipal(o.A))
			return true, nil
		}
		var ps []*v1.Principal
		for _, id := range append([]string{o.A}, o.S...) {
			m.principals[id] = true
			ps = append(ps, v1.NewPrincipal(id))
		}
		w.u.AddPrincipals(ps...)
		return true, nil
	case "regR", "perm", "rdesc":
		if !inRange(len(w.mr), o.H) || !inRange(len(w.mr), o.L...) {
			return false, nil
		}
		r := w.mr[o.H]
		switch o.K {
		case "regR":
			for _, h := range append([]int{o.H}, o.L...) {
				if r := w.mr[h]; m.roles[r.id] == nil {
					m.roles[r.id] = r
				}
			}
			if o.F {
				w.u.AddRoles(append([]*v1.Role{w.rr[o.H]}, roles()...)...)
			} else {
				w.u.AddRole(w.rr[o.H])
			}
		case "perm":
			if r.perms[o.A] == nil {
				r.perms[o.A] = map[string]bool{}
			}
			for i := 0; i+1 < len(o.S); i += 2 {
				r.perms[o.A][o.S[i]+" "+o.S[i+1]] = true
			}
			return true, w.rr[o.H].AddPermission(o.A, attrs1(o.S)...)
		case "rdesc":
			for _, i := range o.L {
				if r.desc[w.mr[i].id] == nil {
					r.desc[w.mr[i].id] = w.mr[i]
				}
			}
			return true, w.rr[o.H].AddDescendent(roles()...)
		}
		return true, nil
	case "nsrole", "nsscope":
		if !inRange(len(w.mn), o.H) {
			return false, nil
		}
		if o.K == "nsrole" {
			if !inRange(len(w.mr), o.L...) {
				return false, nil
			}
			for _, i := range o.L {
				w.mn[o.H].roles[w.mr[i].id] = true
			}
			w.rn[o.H].AddRoles(roles()...)
		} else {
			if !inRange(len(w.rs), o.L...) {
				return false, nil
			}
			for _, i := range o.L {
				w.mn[o.H].scopes[w.c.Scopes[i]] = true
			}
			w.rn[o.H].AddScopes(scopes()...)
		}
		return true, nil
	}
	if !inRange(len(w.mt), o.H) {
		return false, nil
	}
	t, rt := w.mt[o.H], w.rt[o.H]
	if o.K == "regT" {
		if !inRange(len(w.mt), o.L...) {
			return false, nil
		}
		ts := []*v1.Tenant{}
		for _, h := range append([]int{o.H}, o.L...) {
			t := w.mt[h]
			t.known = true
			if m.tenants[t.id] == nil {
				m.tenants[t.id] = t
			}
			ts = append(ts, w.rt[h])
		}
		if o.F {
			w.u.AddTenants(ts...)
		} else {
			w.u.AddTenant(rt)
		}
		return true, nil
	}
	if !t.known {
		return false, nil
	}
	row := func(p, r string, n *v1mNS, s string, manage bool) {
		x := v1.TenantPrincipal{TenantID: t.id, PrincipalID: p, RoleID: r, ScopeID: s, CanManageDescendants: manage}
		if n != nil {
			x.NamespaceID = n.id
		}
		m.rows[x] = true
	}
	switch o.K {
	case "tns":
		if !inRange(len(w.mn), o.L...) {
			return false, nil
		}
		var ns []*v1.Namespace
		for _, i := range o.L {
			if t.ns[w.mn[i].id] == nil {
				t.ns[w.mn[i].id] = w.mn[i]
			}
			ns = append(ns, w.rn[i])
		}
		rt.AddNamespace(ns...)
	case "trole":
		if !inRange(len(w.mr), o.L...) {
			return false, nil
		}
		for _, i := range o.L {
			t.roles[w.mr[i].id] = true
		}
		rt.AddRole(roles()...)
	case "tscope":
		if !inRange(len(w.rs), o.L...) {
			return false, nil
		}
		for _, i := range o.L {
			t.scopes[w.c.Scopes[i]] = true
			if t.def != nil {
				t.def.scopes[w.c.Scopes[i]] = true
			}
		}
		rt.AddScopes(scopes()...)
	case "tdesc":
		if !inRange(len(w.mt), o.L...) {
			return false, nil
		}
		var ds []*v1.Tenant
		for _, i := range o.L {
			if t.desc[w.mt[i].id] == nil {
				t.desc[w.mt[i].id] = w.mt[i]
			}
			ds = append(ds, w.rt[i])
		}
		return true, rt.AddDescendent(ds...)
	case "defns":
		if t.ns[o.A] != nil {
			t.def = t.ns[o.A]
		}
		rt.SetDefaultNamespace(o.A)
	case "tsn":
		for _, s := range o.S {
			if !t.scopes[s] {
				break
			}
			if n := t.ns[o.A]; n != nil {
				n.scopes[s] = true
				row("", "", n, s, true)
			}
		}
		rt.AddScopesToNamespace(o.A, o.S...)
	case "trn":
		for _, r := range o.S {
			if !t.roles[r] || t.ns[o.A] == nil {
				break
			}
			t.ns[o.A].roles[r] = true
		}
		rt.AddRolesToNamespace(o.A, o.S...)
	case "assign":
		for _, r := range o.S {
			if t.roles[r] {
				row(o.A, r, nil, "", true)
				if t.def != nil {
					row(o.A, r, t.def, "", true)
				}
			}
		}
		rt.AddPrincipal(o.A, o.S...)
	case "pin":
		if n := t.ns[o.B]; n != nil {
			if len(o.S) > 0 {
				for _, r := range o.S {
					if t.roles[r] {
						row(o.A, r, n, "", true)
					}
				}
			} else {
				for _, r := range m.rowsOf(t.id, o.A) {
					if r.NamespaceID != "" && r.NamespaceID != o.B {
						row(o.A, r.RoleID, n, "", true)
					}
				}
				row(o.A, "", n, "", true)
			}
		}
		rt.AddPrincipalInNamespace(o.A, o.B, o.S...)
	case "scopes":
		if mine := m.rowsOf(t.id, o.A); len(mine) > 0 {
			for _, s := range o.S {
				if !t.scopes[s] {
					continue
				}
				for _, r := range mine {
					row(o.A, r.RoleID, nil, s, true)
					if t.def != nil {
						row(o.A, r.RoleID, t.def, s, true)
					}
				}
				row(o.A, "", nil, s, true)
			}
		}
		rt.AssignScopesToPrincipal(o.A, o.S...)
	case "scoperole":
		if len(m.rowsOf(t.id, o.A)) > 0 && t.roles[o.B] {
			for _, s := range o.S {
				if t.scopes[s] {
					row(o.A, o.B, nil, s, true)
					if t.def != nil {
						row(o.A, o.B, t.def, s, true)
					}
				}
			}
		}
		rt.AssignScopesWithRole(o.A, o.B, o.S...)
	case "row": // principal A, role B, namespace N-1, scope S1-1; F: with canManage given, G: its value
		if o.N > len(w.mn) || o.S1 > len(w.rs) || o.N < 0 || o.S1 < 0 {
			return false, nil
		}
		var n *v1mNS
		var rn *v1.Namespace
		if o.N > 0 {
			n, rn = w.mn[o.N-1], w.rn[o.N-1]
		}
		var rs *v1.Scope
		sid := ""
		if o.S1 > 0 {
			rs, sid = w.rs[o.S1-1], w.c.Scopes[o.S1-1]
		}
		if o.F {
			row(o.A, o.B, n, sid, o.G)
			rt.AddPrincipalRole(o.A, o.B, rt, rn, rs, o.G)
		} else {
			row(o.A, o.B, n, sid, true)
			w.u.AddPrincipalRole(o.A, o.B, rt, rn, rs)
		}
	default:
		return false, nil
	}
	return true, nil
}

type namedText string

type shownText struct{ text string }

func (s shownText) String() string { return s.text }

// v1Value gives an id of a request as text, or as something with that text.
func v1Value(q rReq, id string) any {
	switch h := crc32.ChecksumIEEE([]byte(id + q.P + q.A + q.G)); (h >> 8) % 12 {
	case 0:
		return []byte(id)
	case 1:
		return namedText(id)
	case 2:
		return shownText{id}
	}
	return id
}

func (w *v1World) ask(q rReq) bool {
	var out []func(*v1.Option)
	if q.T != "" {
		out = append(out, v1.WithTenant(v1Value(q, q.T)))
	}
	if q.N != "" {
		out = append(out, v1.WithNamespace(v1Value(q, q.N)))
	}
	if q.S != "" {
		out = append(out, v1.WithScope(v1Value(q, q.S)))
	}
	if q.HG {
		out = append(out, v1.WithResourceGroup(v1Value(q, q.G)))
	}
	if q.HA {
		out = append(out, v1.WithActivity(v1Value(q, q.A)))
	}
	out = anyOrder(q, out)
	if len(out) > 0 && len(q.P+q.T+q.N+q.S)%5 == 0 { // options may be used again
		w.u.Authorize(q.P, out...)
	}
	return w.u.Authorize(q.P, out...)
}

// compare returns may and must.
func (w *v1World) compare(q rReq, ctx *Ctx) (may, must bool, err error) {
	ctx.Queries++
	ctx.Yield()
	if q.HG || q.HA {
		may, must = w.m.activity(q)
	} else {
		may = w.m.resource(q)
		must = may
	}
	got := w.ask(q)
	if (must && !got) || (got && !may) {
		return may, must, fmt.Errorf("Authorize(%s) = %v, the assignments say between %v and %v", js(q), got, must, may)
	}
	switch {
	case may == must:
		ctx.Label("%s=%v", q.flags(), may)
	default:
		ctx.Label("%s=inherited only", q.flags())
	}
	return
}

// ---------------------------------------------------------------- v1: generator

type v1Gen struct {
	g      G
	c      v1Case
	ps     []string
	groups []string
	rows   []rRow // approximately
	perms  map[string][][3]string
	edges  map[string][]string
	defs   map[int]string
}

func (x *v1Gen) op(o v1Op) { x.c.Ops = append(x.c.Ops, o) }

// joined makes one call of several of the steps from the given one on.
func (x *v1Gen) joined(from int) {
	x.c.Ops = join(x.g, x.c.Ops, from, func(o v1Op) string {
		switch o.K {
		case "regT", "regN", "regS", "regP", "regR":
			return o.K
		case "tdesc", "rdesc", "perm", "group":
			return fmt.Sprintf("%s %d %q", o.K, o.H, o.A)
		}
		return ""
	}, func(into *v1Op, o v1Op) {
		if strings.HasPrefix(o.K, "reg") {
			into.F = true
			if o.K == "regT" || o.K == "regR" {
				into.L = append(slices.Clip(into.L), o.H)
			} else {
				into.S = append(slices.Clip(into.S), o.A)
			}
		}
		into.L, into.S = append(slices.Clip(into.L), o.L...), append(slices.Clip(into.S), o.S...)
	})
}

func newV1Gen(t *rapid.T) *v1Gen {
	g := G{t}
	odd := g.OddPool(40)
	x := &v1Gen{g: g, perms: map[string][][3]string{}, edges: map[string][]string{}, defs: map[int]string{}}
	nT, nN, nR, nS := g.Int(1, 3), g.Int(1, 3), g.Int(1, 5), g.Int(1, 3)
	if g.P(4) { // one of them larger, now and then much larger
		n := g.Int(6, 25)
		if g.P(30) {
			n = g.Big()
		}
		if g.P(2) {
			n = g.Huge()
		}
		*Pick(g, []*int{&nT, &nN, &nR, &nS}) = n
	}
	x.c.Tenants = g.IDs(nT, "T", odd)
	x.c.NS = g.IDs(nN, "N", odd)
	x.c.Roles = g.IDs(nR, "R", odd)
	x.c.Scopes = g.IDs(nS, "S", odd)
	x.ps = g.IDs(g.Int(1, 3), "p", odd)
	x.groups = append(g.IDs(g.Int(1, 2), "g", odd), "")
	if g.P(15) { // a second namespace object of the same id, in another tenant
		x.c.NS = append(x.c.NS, Pick(g, x.c.NS))
	}
	for i := range x.c.Tenants {
		if g.P(95) {
			x.op(v1Op{K: "regT", H: i})
		}
	}
	for _, p := range x.ps {
		if g.P(92) {
			x.op(v1Op{K: "regP", A: p})
		}
	}
	for i := range x.c.Roles {
		if g.P(92) {
			x.op(v1Op{K: "regR", H: i})
		}
	}
	all := func(n, pc int) (out []int) {
		for i := 0; i < n; i++ {
			if g.P(pc) {
				out = append(out, i)
			}
		}
		return
	}
	for i := range x.c.Tenants {
		x.op(v1Op{K: "tns", H: i, L: all(len(x.c.NS), 75)})
		x.op(v1Op{K: "trole", H: i, L: all(len(x.c.Roles), 85)})
		if g.P(25) {
			n := Pick(g, x.c.NS)
			x.op(v1Op{K: "defns", H: i, A: n})
			x.defs[i] = n
		}
		x.op(v1Op{K: "tscope", H: i, L: all(len(x.c.Scopes), 80)})
		if i > 0 && g.P(30) {
			x.op(v1Op{K: "tdesc", H: g.Int(0, i-1), L: []int{i}})
		}
	}
	if g.P(20) { // any shape, cycles included
		for k := g.Int(1, 4); k > 0; k-- {
			x.op(v1Op{K: "tdesc", H: g.Int(0, len(x.c.Tenants)-1), L: []int{g.Int(0, len(x.c.Tenants)-1)}})
		}
	}
	x.joined(0)
	return x
}

func (x *v1Gen) roleOps() {
	g := x.g
	defer x.joined(len(x.c.Ops))
	chain := len(x.c.Roles) > 5 && g.P(50)
	for i, n := range x.c.Roles {
		for k := g.Int(0, 2); k > 0; k-- {
			p := [3]string{Pick(g, x.groups), g.PermResource(), g.PermAction()}
			x.op(v1Op{K: "perm", H: i, A: p[0], S: []string{p[1], p[2]}})
			x.perms[n] = append(x.perms[n], p)
		}
		if i > 0 && (chain || g.P(50)) {
			j := g.Int(0, i-1)
			if chain {
				j = i - 1
			}
			x.op(v1Op{K: "rdesc", H: j, L: []int{i}})
			x.edges[x.c.Roles[j]] = append(x.edges[x.c.Roles[j]], n)
		}
	}
	if g.P(8) {
		x.op(v1Op{K: "rdesc", H: g.Int(0, len(x.c.Roles)-1), L: []int{0}})
	}
}

func (x *v1Gen) assignment() {
	g := x.g
	h := g.Int(0, len(x.c.Tenants)-1)
	t, p, r, n, s := x.c.Tenants[h], Pick(g, x.ps), Pick(g, x.c.Roles), Pick(g, x.c.NS), Pick(g, x.c.Scopes)
	add := func(row rRow) {
		x.rows = append(x.rows, row)
		if d := x.defs[h]; d != "" && row.N == "" && row.P != "" {
			row.N = d
			x.rows = append(x.rows, row)
		}
	}
	switch g.Int(0, 16) {
	case 0, 1, 2, 3:
		o := v1Op{K: "assign", H: h, A: p, S: []string{r}}
		if g.P(25) {
			o.S = append(o.S, Pick(g, x.c.Roles))
			r = Pick(g, o.S)
		}
		x.op(o)
		add(rRow{T: t, P: p, R: r})
	case 4, 5:
		o := v1Op{K: "pin", H: h, A: p, B: n, S: []string{r}}
		if g.P(25) {
			o.S = nil
			r = ""
		} else if g.P(30) {
			o.S = append(o.S, Pick(g, x.c.Roles))
			r = Pick(g, o.S)
		}
		x.op(o)
		add(rRow{T: t, P: p, N: n, R: r})
	case 6, 7:
		x.op(v1Op{K: "scopes", H: h, A: p, S: append([]string{s}, Some(g, x.c.Scopes, 20)...)})
		add(rRow{T: t, P: p, S: s})
	case 8, 9:
		x.op(v1Op{K: "scoperole", H: h, A: p, B: r, S: append([]string{s}, Some(g, x.c.Scopes, 20)...)})
		add(rRow{T: t, P: p, S: s, R: r})
	case 10, 11:
		x.op(v1Op{K: "tsn", H: h, A: n, S: append([]string{s}, Some(g, x.c.Scopes, 20)...)})
		x.rows = append(x.rows, rRow{T: t, N: n, S: s})
	case 12:
		x.op(v1Op{K: "trn", H: h, A: n, S: append([]string{r}, Some(g, x.c.Roles, 20)...)})
	case 13:
		o := v1Op{K: Pick(g, []string{"nsrole", "nsscope"}), H: g.Int(0, len(x.c.NS)-1)}
		if o.K == "nsrole" {
			o.L = []int{g.Int(0, len(x.c.Roles)-1)}
			if g.P(30) {
				o.L = append(o.L, g.Int(0, len(x.c.Roles)-1))
			}
		} else {
			o.L = []int{g.Int(0, len(x.c.Scopes)-1)}
			if g.P(30) {
				o.L = append(o.L, g.Int(0, len(x.c.Scopes)-1))
			}
		}
		x.op(o)
	default:
		o := v1Op{K: "row", H: h, A: p, B: r, F: g.P(50), G: g.P(50)}
		row := rRow{T: t, P: p, R: r}
		if g.P(60) {
			o.N = g.Int(1, len(x.c.NS))
			row.N = x.c.NS[o.N-1]
		}
		if g.P(60) {
			o.S1 = g.Int(1, len(x.c.Scopes))
			row.S = x.c.Scopes[o.S1-1]
		}
		if g.P(15) {
			o.A, row.P = "", ""
		}
		if g.P(15) {
			o.B, row.R = "", ""
		}
		x.op(o)
		x.rows = append(x.rows, row)
	}
}

func (x *v1Gen) request(activity bool) rReq {
	g := x.g
	q := rReq{P: Pick(g, x.ps), T: Pick(g, x.c.Tenants)}
	role := Pick(g, x.c.Roles)
	if len(x.rows) > 0 && g.P(93) {
		row := Pick(g, x.rows)
		if row.P != "" {
			q.P = row.P
		}
		if row.R != "" {
			role = row.R
		}
		q.T, q.N, q.S = row.T, row.N, row.S
		if q.N == "" && g.P(25) {
			q.N = Pick(g, x.c.NS)
		}
		if q.S == "" && g.P(25) {
			q.S = Pick(g, x.c.Scopes)
		}
		if g.P(12) {
			q.N = ""
		}
		if g.P(12) {
			q.S = ""
		}
		if g.P(20) && (!activity || g.P(50)) {
			q.T = ""
			if activity && g.P(70) {
				q.N, q.S = "", ""
			}
		}
		if g.P(6) {
			q.P = Pick(g, x.ps)
		}
		if q.T != "" && g.P(6) {
			q.T = Pick(g, x.c.Tenants)
		}
	} else {
		if g.P(50) {
			q.N = Pick(g, x.c.NS)
		}
		if g.P(50) {
			q.S = Pick(g, x.c.Scopes)
		}
	}
	if g.P(2) {
		*Pick(g, []*string{&q.T, &q.N, &q.S, &q.P}) = "unknown"
	}
	if activity {
		q.HG, q.HA = true, true
		q.G = Pick(g, x.groups)
		for i := 0; i < 6 && len(x.edges[role]) > 0 && g.P(45); i++ {
			role = Pick(g, x.edges[role])
		}
		ps := x.perms[role]
		if len(ps) == 0 {
			for _, r := range x.c.Roles {
				ps = append(ps, x.perms[r]...)
			}
		}
		if len(ps) > 0 && g.P(95) {
			p := Pick(g, ps)
			q.G = p[0]
			q.A = g.Instance(p[1]) + " " + g.Instance(p[2])
			if g.P(15) {
				q.A = g.Near(q.A)
			}
			if g.P(6) {
				q.G = Pick(g, x.groups)
			}
		} else {
			q.A = g.Instance(g.PermResource()) + " " + g.Instance(g.PermAction())
		}
		if q.T == "" && q.N == "" && q.S == "" || g.P(4) {
			q.HG, q.G = false, ""
		} else if g.P(3) {
			q.HA, q.A = false, ""
		}
	}
	return q
}

func genV1(activity bool) func(t *rapid.T) v1Case {
	return func(t *rapid.T) v1Case {
		x := newV1Gen(t)
		g := x.g
		if activity {
			x.roleOps()
		}
		n := g.Int(1, 8)
		if g.P(5) {
			n = g.Int(15, 50)
			if g.P(15) {
				n = g.Big()
			}
		}
		for i := 0; i < n; i++ {
			x.assignment()
			if g.P(10) {
				q := x.request(activity)
				x.op(v1Op{K: "ask", R: &q})
			}
			if !raceOn && g.P(1) && g.P(25) {
				if q := x.request(activity); g.P(40) {
					x.op(v1Op{K: "churn", A: Pick(g, []string{"principal", "tenant", "scope", "activity", "same"}), R: &q, N: Pick(g, []int{70, 140, 270, 530, 1030})})
				} else {
					x.op(v1Op{K: "spin", A: Pick(g, []string{"row", "role", "tenant", "principal", "perm"}), H: g.Int(0, len(x.c.Roles)-1), N: spinCount(g)})
				}
			}
		}
		for k := g.Int(3, 9); k > 0; k-- {
			x.c.Probes = append(x.c.Probes, x.request(activity))
		}
		x.c.Ops = late(g, x.c.Ops, func(o v1Op) string { return o.K }, v1Op{K: "probe"})
		return x.c
	}
}

func (w *v1World) run(ctx *Ctx) error {
	for i, o := range w.c.Ops {
		if err := w.runOne(i, o, ctx); err != nil {
			return err
		}
	}
	return nil
}

func (w *v1World) runOne(i int, o v1Op, ctx *Ctx) error {
	if o.K == "ask" {
		if o.R != nil {
			if _, _, err := w.compare(*o.R, ctx); err != nil {
				return fmt.Errorf("op %d: %w", i, err)
			}
		}
		return nil
	}
	if o.K == "probe" {
		if err := w.probe(ctx); err != nil {
			return fmt.Errorf("before op %d: %w", i+1, err)
		}
		return nil
	}
	if o.K == "churn" {
		for k := 0; k < o.N && o.R != nil && !ctx.Over(); k++ {
			if _, _, err := w.compare(o.R.vary(o.A, k), ctx); err != nil {
				return fmt.Errorf("op %d (%s): %w", i, o.K, err)
			}
		}
		ctx.Label("many questions at once")
		return nil
	}
	spins := i+1 < len(w.c.Ops) && w.c.Ops[i+1].K == "spin"
	if spins {
		if err := w.probe(ctx); err != nil {
			return fmt.Errorf("before op %d: %w", i, err)
		}
	}
	if _, err := w.step(o); err != nil {
		return fmt.Errorf("op %d %s: %w", i, js(o), err)
	}
	if o.K == "spin" {
		ctx.Label("many changes at once")
		if err := w.probe(ctx); err != nil {
			return fmt.Errorf("after op %d (%s): %w", i, o.K, err)
		}
	}
	return nil
}

func (w *v1World) probe(ctx *Ctx) error {
	for i, q := range w.c.Probes {
		if _, _, err := w.compare(q, ctx); err != nil {
			return fmt.Errorf("probe %d: %w", i, err)
		}
	}
	return nil
}

func evalV1(c v1Case, ctx *Ctx) error {
	w := newV1World(&c)
	if err := w.run(ctx); err != nil {
		return err
	}
	yes, no := 0, 0
	for k := 0; k < 2; k++ {
		for i, q := range c.Probes {
			may, must, err := w.compare(q, ctx)
			if err != nil {
				return fmt.Errorf("probe %d: %w", i, err)
			}
			if must {
				yes++
			}
			if !may {
				no++
			}
		}
	}
	if yes > 0 && no > 0 {
		ctx.NonTrivial()
	}
	return nil
}

var _ = Register("C18",
	"v1 histories of registrations, namespaces, scopes and roles of tenants, default namespaces, assignments by every method, with requests for tenant, namespace and/or scope; oracle: reference decision over the set of rows; non-trivial: granted and denied requests occur",
	2, genV1(false), evalV1)

var _ = Register("C19",
	"as C18 with permissions, role inheritance and requests naming a resource group and activity; oracle: granted if a role assigned for the requested tenant, namespace and scope itself holds a matching permission, denied if neither such a role nor a role below holds one, by the roles reported as allowed where it depends on those; the same when asked again; the roles reported as allowed are the tenant's, and stay what they were; non-trivial: granted and denied requests occur",
	2, genV1(true), func(c v1Case, ctx *Ctx) error {
		if err := evalV1(c, ctx); err != nil {
			return err
		}
		w := newV1World(&c)
		if err := w.run(&Ctx{labels: map[string]struct{}{}}); err != nil {
			return err
		}
		type kept struct {
			q        rReq
			got, was []string
		}
		var all []kept
		for _, q := range c.Probes {
			rows := w.u.GetPrincipalRoles(q.T, q.P)
			asked := slices.Clone(rows)
			got := w.u.GetAllowedRoles(rows, q.N, q.S)
			if !slices.Equal(rows, asked) {
				return fmt.Errorf("GetAllowedRoles for %s was given %v and left %v", js(q), asked, rows)
			}
			all = append(all, kept{q, got, slices.Clone(got)})
			ctx.Queries++
			t := w.m.tenants[q.T]
			for _, r := range got {
				mine := t != nil && t.ns[q.N] != nil && t.ns[q.N].roles[r]
				for _, row := range rows {
					mine = mine || row.RoleID == r
				}
				if t == nil || !t.roles[r] || !mine {
					return fmt.Errorf("GetAllowedRoles for %s lists %q", js(q), r)
				}
			}
			if may, must := w.m.activity(q); (q.HG || q.HA) && q.T != "" && may != must && len(got) > 0 {
				if want := w.m.through(q, got); w.ask(q) != want {
					return fmt.Errorf("Authorize(%s) = %v, though the allowed roles are %q", js(q), !want, got)
				}
				ctx.Label("inherited, allowed roles reported")
			}
		}
		for _, k := range all {
			w.ask(k.q)
			if !slices.Equal(k.got, k.was) {
				return fmt.Errorf("the roles returned for %s were %q and became %q", js(k.q), k.was, k.got)
			}
			again := slices.Clone(w.u.GetAllowedRoles(w.u.GetPrincipalRoles(k.q.T, k.q.P), k.q.N, k.q.S))
			was := slices.Clone(k.was)
			slices.Sort(again)
			slices.Sort(was)
			if !slices.Equal(slices.Compact(again), slices.Compact(was)) {
				return fmt.Errorf("GetAllowedRoles for %s: %q, then %q", js(k.q), was, again)
			}
		}
		return nil
	})

func genV1Query(t *rapid.T) v1Case { return v1QueryGen(t).c }

func v1QueryGen(t *rapid.T) *v1Gen {
	x := newV1Gen(t)
	g := x.g
	x.roleOps()
	n := g.Int(2, 10)
	if g.P(8) {
		n = g.Int(20, 60)
		if g.P(15) {
			n = g.Big()
		}
	}
	for i := 0; i < n; i++ {
		x.assignment()
	}
	for k := g.Int(2, 5); k > 0; k-- {
		a := [2]string{Pick(g, x.c.Tenants), Pick(g, x.ps)}
		if len(x.rows) > 0 && g.P(80) {
			r := Pick(g, x.rows)
			a = [2]string{r.T, r.P}
			if r.P == "" {
				a[1] = Pick(g, x.ps)
			}
		}
		if g.P(4) {
			a[g.Int(0, 1)] = "unknown"
		}
		x.c.Ask = append(x.c.Ask, a)
		if g.P(50) {
			x.c.At = append(x.c.At, g.Int(0, len(x.c.Ops)))
		}
	}
	return x
}

func rows1(rs []v1.TenantPrincipal) []string {
	out := []string{}
	for _, r := range rs {
		out = append(out, js(r))
	}
	sort.Strings(out)
	return out
}

type v1Kept struct {
	name      string
	got, copy []v1.TenantPrincipal
}

func (w *v1World) keep(name string, got []v1.TenantPrincipal) []string {
	out := rows1(got)
	w.results++
	if w.results%3 == 0 {
		for i := range got {
			got[i] = v1.TenantPrincipal{RoleID: "spoiled"}
		}
	} else if len(w.kept) < 30 {
		w.kept = append(w.kept, v1Kept{name, got, slices.Clone(got)})
	}
	return out
}

// allBelow: the tenants under this one, each once, without itself.
func (x *v1mTenant) allBelow() (out []*v1mTenant) {
	seen := map[*v1mTenant]bool{x: true}
	stack := []*v1mTenant{x}
	for len(stack) > 0 {
		x := stack[0]
		stack = stack[1:]
		for _, d := range x.desc {
			if !seen[d] {
				seen[d] = true
				out = append(out, d)
				stack = append(stack, d)
			}
		}
	}
	return
}

// checkQueries asks every query for a tenant and a principal. What it is given
// it overwrites or keeps, as a caller may.
func (w *v1World) checkQueries(a [2]string, ctx *Ctx) (int, error) {
	m, u := w.m, w.u
	where := func(f func(r v1.TenantPrincipal) bool) []v1.TenantPrincipal {
		var out []v1.TenantPrincipal
		for r := range m.rows {
			if f(r) {
				out = append(out, r)
			}
		}
		return out
	}
	t, p := a[0], a[1]
	var bad error
	eq := func(name string, got, want []string) {
		ctx.Queries++
		if bad == nil && js(got) != js(want) {
			bad = fmt.Errorf("%s for tenant %q principal %q: %v, stored: %v", name, t, p, got, want)
		}
	}
	mine := where(func(r v1.TenantPrincipal) bool { return r.TenantID == t && r.PrincipalID == p })
	ofT := where(func(r v1.TenantPrincipal) bool { return r.TenantID == t })
	read := len(mine) + len(ofT)
	eq("GetPrincipalRoles", w.keep("GetPrincipalRoles", u.GetPrincipalRoles(t, p)), rows1(mine))
	eq("GetTenantRoles", w.keep("GetTenantRoles", u.GetTenantRoles(t)), rows1(ofT))
	eq("GetPrincipalRolesByTenant", w.keep("GetPrincipalRolesByTenant", u.GetPrincipalRolesByTenant(t)), rows1(ofT))
	ts, err := u.GetTenantsForPrincipal(p)
	sort.Strings(ts)
	eq("GetTenantsForPrincipal", append([]string{}, ts...), append([]string{}, sortedKeys(m.tenantsOf(p))...))
	for i := range ts {
		ts[i] = "spoiled"
	}
	if err != nil {
		return 0, fmt.Errorf("GetTenantsForPrincipal(%q): %v", p, err)
	}
	// implicit: mine here, and what is assigned below
	direct, below := map[string]bool{}, map[string]bool{}
	if x := m.tenants[t]; x != nil {
		for _, d := range x.desc {
			direct[d.id] = true
		}
		for _, d := range x.allBelow() {
			below[d.id] = true
		}
		for _, d := range append([]*v1mTenant{x}, x.allBelow()...) {
			for _, e := range d.desc {
				if e == x { // a circle: the tenant is below itself
					below[t] = true
				}
			}
		}
	}
	imp := map[string]bool{}
	for _, r := range u.GetImplicitPrincipalRoles(t, p) {
		imp[js(r)] = true
		if !m.rows[r] || !(r.TenantID == t && r.PrincipalID == p) && !below[r.TenantID] {
			return 0, fmt.Errorf("GetImplicitPrincipalRoles(%q, %q) lists %s", t, p, js(r))
		}
	}
	for _, r := range where(func(r v1.TenantPrincipal) bool { return r.PrincipalID == p && (r.TenantID == t || direct[r.TenantID]) }) {
		if !imp[js(r)] {
			return 0, fmt.Errorf("GetImplicitPrincipalRoles(%q, %q) leaves out %s", t, p, js(r))
		}
	}
	scopes := func(f func(r v1.TenantPrincipal) bool) []string {
		set := map[string]bool{}
		for _, r := range where(f) {
			if r.ScopeID != "" && r.PrincipalID == p {
				set[r.ScopeID] = true
			}
		}
		return append([]string{}, sortedKeys(set)...)
	}
	got, err := u.GetScopesForPrincipal(p)
	if (err == nil) != m.principals[p] {
		return 0, fmt.Errorf("GetScopesForPrincipal(%q): error %v", p, err)
	}
	if err == nil {
		sort.Strings(got)
		eq("GetScopesForPrincipal", distinct(got), scopes(func(v1.TenantPrincipal) bool { return true }))
	}
	got, err = u.GetTenantScopesForPrincipal(t, p)
	if (err == nil) != (m.principals[p] && m.tenants[t] != nil) {
		return 0, fmt.Errorf("GetTenantScopesForPrincipal(%q, %q): error %v", t, p, err)
	}
	if err == nil {
		sort.Strings(got)
		eq("GetTenantScopesForPrincipal", distinct(got), scopes(func(r v1.TenantPrincipal) bool { return r.TenantID == t }))
	}
	var have, want []string
	for _, pp := range u.GetPermissionsForPrincipal(t, p) {
		have = append(have, js([]any{pp.TenantPrincipal, attrStrings(pp.Permissions)}))
		clear(pp.Permissions)
	}
	for _, r := range mine {
		if role := m.roles[r.RoleID]; role != nil {
			ps := map[string][]string{}
			for g, set := range role.perms {
				ps[g] = sortedKeys(set)
			}
			want = append(want, js([]any{r, ps}))
		}
	}
	sort.Strings(have)
	sort.Strings(want)
	eq("GetPermissionsForPrincipal", have, want)
	return read, bad
}

var _ = Register("C20",
	"v1 histories as in C19, and in between and at the end every query about the principals and tenants of the rows; oracle: the set of rows that the methods are documented to store, every row once, and results stay as returned; non-trivial: over 4 rows stored and over 4 of them read back",
	1, genV1Query, func(c v1Case, ctx *Ctx) error {
		w := newV1World(&c)
		m, u := w.m, w.u
		for i, o := range c.Ops {
			for k, at := range c.At {
				if at == i && k < len(c.Ask) {
					if _, err := w.checkQueries(c.Ask[k], ctx); err != nil {
						return fmt.Errorf("before op %d: %w", i, err)
					}
					ctx.Label("asked in between")
				}
			}
			if err := w.runOne(i, o, ctx); err != nil {
				return err
			}
		}
		read := 0
		for _, a := range c.Ask {
			n, err := w.checkQueries(a, ctx)
			if err != nil {
				return err
			}
			read += n
		}
		for i, id := range c.Roles {
			ps, err := u.GetRolePermissions(id)
			role := m.roles[id]
			if (err == nil) != (role != nil) {
				return fmt.Errorf("GetRolePermissions(%q): error %v", id, err)
			}
			if role != nil {
				want := map[string][]string{}
				for g, set := range role.perms {
					want[g] = sortedKeys(set)
				}
				if got := attrStrings(ps); js(got) != js(want) {
					return fmt.Errorf("GetRolePermissions(%q) = %v, want %v", id, got, want)
				}
			}
			_ = i
		}
		for i := range c.Tenants {
			var got []int
			for _, d := range w.rt[i].GetDescendantTenants() {
				got = append(got, slices.Index(w.rt, d))
			}
			sort.Ints(got)
			var want []int
			for _, d := range w.mt[i].allBelow() {
				want = append(want, slices.Index(w.mt, d))
			}
			sort.Ints(want)
			if js(got) != js(want) {
				return fmt.Errorf("tenant %q: descendants %v, want %v", c.Tenants[i], got, want)
			}
		}
		for _, k := range w.kept {
			if !slices.Equal(k.got, k.copy) {
				return fmt.Errorf("the result of %s was %v and became %v", k.name, k.copy, k.got)
			}
		}
		switch {
		case len(m.rows) > 20:
			ctx.Label("over 20 rows")
		case len(m.rows) > 4:
			ctx.Label("5-20 rows")
		default:
			ctx.Label("up to 4 rows")
		}
		if len(m.rows) > 4 && read > 4 {
			ctx.NonTrivial()
		}
		return nil
	})
