package harness

import (
	"fmt"
	"log/slog"
	"maps"
	"slices"
	"strconv"
	"strings"
	"time"

	v2 "github.com/oarkflow/permission/v2"
)

// A v2 case: tenants and roles are objects made up front (several may carry
// the same id: registering one replaces the other); the history then
// configures the authorizer and queries it.
type v2Case struct {
	Tenants []v2TenantDef
	Roles   []string
	Ops     []v2Op
	Probes  []v2Req `json:",omitempty"` // asked again at the end (and wherever the property says)
}

type v2TenantDef struct {
	ID string
	NS string `json:",omitempty"` // default namespace given to NewTenant
}

type v2Op struct {
	K  string
	H  int      `json:",omitempty"` // tenant or role object
	L  []int    `json:",omitempty"` // further objects
	A  string   `json:",omitempty"`
	B  string   `json:",omitempty"`
	S  []string `json:",omitempty"`
	F  bool     `json:",omitempty"`
	N  int      `json:",omitempty"`
	P  *v2PR    `json:",omitempty"` // criteria of a removal
	PL []v2PR   `json:",omitempty"` // assignments
	R  *v2Req   `json:",omitempty"`
}

type v2PR struct {
	Principal, Tenant      string
	Namespace, Scope, Role string `json:",omitempty"`
	Manage                 bool   `json:",omitempty"`
	Expiry                 *int64 `json:",omitempty"` // nanoseconds from the start of the case
}

type v2Req struct {
	Principal                string
	Tenant, Namespace, Scope string   `json:",omitempty"`
	Resource, Action         string   `json:",omitempty"`
	Can                      bool     `json:",omitempty"`
	Roles                    []string `json:",omitempty"`
}

func (r v2Req) request() v2.Request {
	return v2.Request{Principal: r.Principal, Tenant: r.Tenant, Namespace: r.Namespace, Scope: r.Scope, Resource: r.Resource, Action: r.Action}
}

// ---- reference model: the current configuration, nothing else ----

type v2mTenant struct {
	id       string
	ns       map[string]map[string]bool
	def      string
	inactive bool
	children map[string]*v2mTenant
}

type v2mRole struct {
	name  string
	perms map[string]bool
}

type v2mPR struct {
	v2PR
	expiry *time.Time
}

type v2Model struct {
	tenants map[string]*v2mTenant
	roles   map[string]*v2mRole
	edges   map[string][]string
	prs     []*v2mPR
	def     string
}

func newV2Model() *v2Model {
	return &v2Model{tenants: map[string]*v2mTenant{}, roles: map[string]*v2mRole{}, edges: map[string][]string{}}
}

func newV2mTenant(id, ns string) *v2mTenant {
	t := &v2mTenant{id: id, ns: map[string]map[string]bool{}, children: map[string]*v2mTenant{}}
	if ns != "" {
		t.def = ns
		t.ns[ns] = map[string]bool{}
	}
	return t
}

// reaches reports whether to can be reached from role from over child edges.
func (m *v2Model) reaches(from, to string) bool {
	seen := map[string]bool{}
	stack := []string{from}
	for len(stack) > 0 {
		r := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if r == to {
			return true
		}
		if seen[r] {
			continue
		}
		seen[r] = true
		stack = append(stack, m.edges[r]...)
	}
	return false
}

// closure: registered roles reachable over registered roles, role included.
func (m *v2Model) closure(role string) map[string]bool {
	out := map[string]bool{}
	stack := []string{role}
	for len(stack) > 0 {
		r := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if m.roles[r] == nil || out[r] {
			continue
		}
		out[r] = true
		stack = append(stack, m.edges[r]...)
	}
	return out
}

func (m *v2Model) rolePerms(role string) map[string]bool {
	out := map[string]bool{}
	for r := range m.closure(role) {
		for p := range m.roles[r].perms {
			out[p] = true
		}
	}
	return out
}

func (pr *v2mPR) live(now time.Time) bool {
	return pr.expiry == nil || !now.After(*pr.expiry)
}

func (m *v2Model) targets(r v2Req) ([]*v2mTenant, bool) {
	id := r.Tenant
	if id == "" {
		id = m.def
	}
	if id != "" {
		t := m.tenants[id]
		if t == nil || t.inactive {
			return nil, false
		}
		return []*v2mTenant{t}, true
	}
	var out []*v2mTenant
	for _, pr := range m.prs {
		if pr.Principal == r.Principal {
			if t := m.tenants[pr.Tenant]; t != nil && !t.inactive && !slices.Contains(out, t) {
				out = append(out, t)
			}
		}
	}
	return out, true
}

func (t *v2mTenant) namespace(r v2Req) (string, bool) {
	ns := r.Namespace
	if ns == "" {
		ns = t.def
	}
	if ns == "" {
		if len(t.ns) != 1 {
			return "", false
		}
		for only := range t.ns {
			ns = only
		}
	}
	scopes, ok := t.ns[ns]
	if !ok {
		return "", false
	}
	if r.Scope != "" && !scopes[r.Scope] {
		return "", false
	}
	return ns, true
}

// below: t and the active tenants the principal manages from it.
func (m *v2Model) below(t *v2mTenant, principal string, now time.Time) []*v2mTenant {
	var out []*v2mTenant
	seen := map[string]bool{}
	var walk func(t *v2mTenant)
	walk = func(t *v2mTenant) {
		if seen[t.id] || t.inactive {
			return
		}
		seen[t.id] = true
		out = append(out, t)
		for _, pr := range m.prs {
			if pr.Principal == principal && pr.Tenant == t.id && pr.Manage && pr.live(now) {
				for _, id := range sortedKeys(t.children) {
					walk(t.children[id])
				}
			}
		}
	}
	walk(t)
	return out
}

type v2Why struct {
	tenants, scoped, global, expired, inherited, child int
	roleDepth                                          bool
}

func (m *v2Model) authorize(r v2Req, now time.Time, why *v2Why) bool {
	ts, ok := m.targets(r)
	if !ok || (r.Resource == "" && r.Action == "") {
		return false
	}
	why.tenants = len(ts)
	for _, t := range ts {
		ns, ok := t.namespace(r)
		if !ok {
			continue
		}
		scoped, global := map[string]bool{}, map[string]bool{}
		for i, b := range m.below(t, r.Principal, now) {
			for _, pr := range m.prs {
				if pr.Principal != r.Principal || pr.Tenant != b.id || (pr.Namespace != "" && pr.Namespace != ns) {
					continue
				}
				if !pr.live(now) {
					why.expired++
					continue
				}
				if i > 0 {
					why.child++
				}
				into := map[string]bool{}
				switch pr.Scope {
				case r.Scope:
					into = scoped
				case "":
					into = global
				}
				for p := range m.rolePerms(pr.Role) {
					into[p] = true
				}
			}
		}
		why.scoped += len(scoped)
		why.global += len(global)
		set := scoped
		if len(scoped) == 0 {
			set = global
		}
		for p := range set {
			if refMatch(r.Resource+" "+r.Action, p) {
				return true
			}
		}
	}
	return false
}

func (m *v2Model) can(r v2Req, now time.Time) bool {
	ts, ok := m.targets(r)
	if !ok {
		return false
	}
	for _, t := range ts {
		ns, ok := t.namespace(r)
		if !ok {
			continue
		}
		for _, b := range m.below(t, r.Principal, now) {
			for _, pr := range m.prs {
				if pr.Principal != r.Principal || pr.Tenant != b.id || pr.Role == "" || !pr.live(now) ||
					(pr.Namespace != "" && pr.Namespace != ns) || (pr.Scope != "" && pr.Scope != r.Scope) {
					continue
				}
				if slices.Contains(r.Roles, pr.Role) {
					return true
				}
				for c := range m.closure(pr.Role) {
					if slices.Contains(r.Roles, c) {
						return true
					}
				}
			}
		}
	}
	return false
}

func (m *v2Model) ask(r v2Req, now time.Time) bool {
	if r.Can {
		return m.can(r, now)
	}
	return m.authorize(r, now, &v2Why{})
}

// ---- the real authorizer, driven by the same operations ----

type v2Real struct {
	a       *v2.Authorizer
	tenants []*v2.Tenant
	roles   []*v2.Role
	prs     []*v2.PrincipalRole // as added, for SetExpiry and the like
}

func newV2Real(c *v2Case, logger ...*slog.Logger) *v2Real {
	if len(logger) == 0 && len(c.Ops)%4 == 0 {
		logger = append(logger, nil) // no logger, said otherwise
	}
	r := &v2Real{a: v2.NewAuthorizer(logger...)}
	for _, d := range c.Tenants {
		if d.NS != "" {
			r.tenants = append(r.tenants, v2.NewTenant(d.ID, d.NS))
		} else {
			r.tenants = append(r.tenants, v2.NewTenant(d.ID))
		}
	}
	for _, n := range c.Roles {
		r.roles = append(r.roles, v2.NewRole(n))
	}
	return r
}

func (r *v2Real) ask(q v2Req) bool {
	if q.Can {
		return r.a.Can(q.request(), q.Roles...)
	}
	return r.a.Authorize(q.request())
}

// v2World runs the model and the real thing side by side.
type v2World struct {
	c     *v2Case
	m     *v2Model
	mt    []*v2mTenant
	mr    []*v2mRole
	mprs  []*v2mPR // every assignment ever added
	real  *v2Real
	start time.Time
}

func newV2World(c *v2Case, logger ...*slog.Logger) *v2World {
	w := &v2World{c: c, m: newV2Model(), real: newV2Real(c, logger...), start: time.Now()}
	for _, d := range c.Tenants {
		w.mt = append(w.mt, newV2mTenant(d.ID, d.NS))
	}
	for _, n := range c.Roles {
		w.mr = append(w.mr, &v2mRole{name: n, perms: map[string]bool{}})
	}
	return w
}

var errSkip = fmt.Errorf("op refers to nothing")

func (w *v2World) okT(hs ...int) bool {
	for _, h := range hs {
		if h < 0 || h >= len(w.mt) {
			return false
		}
	}
	return true
}

func perms(s []string) (out []*v2.Permission) {
	for i := 0; i+1 < len(s); i += 2 {
		// the category says nothing about what is permitted
		out = append(out, v2.NewPermission([]string{"cat", "", "*", s[i], "a b"}[(len(s[i])*7+len(s)+i)%5], s[i], s[i+1]))
	}
	return
}

// model performs a configuration step on the model: does the call report an
// error, and does the step make sense at all?
func (w *v2World) model(o v2Op) (fails, ok bool) {
	switch o.K {
	case "tenant", "ns", "scope", "child", "status", "defns":
		if !w.okT(o.H) || !w.okT(o.L...) || (o.K == "ns" && o.A == "") {
			return false, false
		}
		t := w.mt[o.H]
		switch o.K {
		case "tenant":
			w.m.tenants[t.id] = t
			for _, h := range o.L {
				w.m.tenants[w.mt[h].id] = w.mt[h]
			}
		case "ns":
			if o.F {
				t.def = o.A
			}
			if t.ns[o.A] == nil {
				t.ns[o.A] = map[string]bool{}
			}
		case "scope":
			scopes, exists := t.ns[o.A]
			if !exists {
				return true, true
			}
			for _, s := range o.S {
				scopes[s] = true
			}
		case "child":
			for _, h := range o.L {
				t.children[w.mt[h].id] = w.mt[h]
			}
		case "defns":
			t.def = o.A
		case "status":
			t.inactive = v2.TenantStatus(o.N) != v2.TenantStatusActive
		}
	case "default":
		w.m.def = o.A
	case "role", "perm", "unperm":
		if !inRange(len(w.mr), o.H) || !inRange(len(w.mr), o.L...) {
			return false, false
		}
		r := w.mr[o.H]
		if o.K == "role" {
			w.m.roles[r.name] = r
			for _, h := range o.L {
				w.m.roles[w.mr[h].name] = w.mr[h]
			}
			break
		}
		for i := 0; i+1 < len(o.S); i += 2 {
			if o.K == "perm" {
				r.perms[o.S[i]+" "+o.S[i+1]] = true
			} else {
				delete(r.perms, o.S[i]+" "+o.S[i+1])
			}
		}
	case "edge":
		if slices.ContainsFunc(o.S, func(s string) bool { return w.m.reaches(s, o.A) }) {
			return true, true
		}
		w.m.edges[o.A] = append(w.m.edges[o.A], o.S...)
	case "assign":
		for _, p := range o.PL {
			mp := &v2mPR{v2PR: p}
			if p.Expiry != nil {
				e := w.start.Add(time.Duration(*p.Expiry))
				mp.expiry = &e
			}
			w.mprs = append(w.mprs, mp)
			w.m.prs = append(w.m.prs, mp)
		}
	case "again": // an assignment object handed over earlier
		if o.P == nil {
			return false, false
		}
		for _, mp := range slices.Backward(w.mprs) {
			if mp.Principal == o.P.Principal && mp.Tenant == o.P.Tenant && mp.Namespace == o.P.Namespace && mp.Scope == o.P.Scope && mp.Role == o.P.Role && mp.Manage == o.P.Manage {
				w.m.prs = append(w.m.prs, mp)
				return false, true
			}
		}
		return false, false
	case "unassign":
		if o.P == nil {
			return false, false
		}
		p := *o.P
		var kept []*v2mPR
		for _, x := range w.m.prs {
			if (p.Principal == "" || p.Principal == x.Principal) && (p.Tenant == "" || p.Tenant == x.Tenant) && (p.Namespace == "" || p.Namespace == x.Namespace) &&
				(p.Scope == "" || p.Scope == x.Scope) && (p.Role == "" || p.Role == x.Role) {
				continue
			}
			kept = append(kept, x)
		}
		fails = len(kept) == len(w.m.prs)
		w.m.prs = kept
	case "chain": // many roles in a line, from role A to role B
		prev := o.A
		for _, n := range fillers(o) {
			w.m.roles[n] = &v2mRole{name: n, perms: map[string]bool{}}
			w.m.edges[prev] = append(w.m.edges[prev], n)
			prev = n
		}
		if w.m.reaches(o.B, prev) {
			return true, true
		}
		w.m.edges[prev] = append(w.m.edges[prev], o.B)
	case "tline": // many tenants in a line that principal A manages, from tenant H to tenant L
		if !w.okT(o.H) || len(o.L) != 1 || !w.okT(o.L...) {
			return false, false
		}
		prev := w.mt[o.H]
		w.m.prs = append(w.m.prs, &v2mPR{v2PR: v2PR{Principal: o.A, Tenant: prev.id, Manage: true}})
		for _, n := range fillers(o) {
			t := newV2mTenant(n, "")
			prev.children[n] = t
			w.m.prs = append(w.m.prs, &v2mPR{v2PR: v2PR{Principal: o.A, Tenant: n, Manage: true}})
			prev = t
		}
		prev.children[w.mt[o.L[0]].id] = w.mt[o.L[0]]
	case "twide": // many tenants with a namespace B in which principal A is assigned
		for _, n := range fillers(o) {
			w.m.tenants[n] = newV2mTenant(n, o.B)
			w.m.prs = append(w.m.prs, &v2mPR{v2PR: v2PR{Principal: o.A, Tenant: n, Role: "f"}})
		}
	case "nsfill": // many namespaces
		if !w.okT(o.H) {
			return false, false
		}
		for _, n := range fillers(o) {
			if t := w.mt[o.H]; t.ns[n] == nil {
				t.ns[n] = map[string]bool{}
			}
		}
	case "churn": // many questions, see (*v2World).churn
	case "spin": // N changes that bear on no question
		if o.N < 1 {
			return false, false
		}
		switch o.A {
		case "role":
			w.m.roles["zz"] = &v2mRole{name: "zz", perms: map[string]bool{}}
		case "tenant":
			w.m.tenants["zz"] = newV2mTenant("zz", "")
		case "perm":
			if o.H < 0 || o.H >= len(w.mr) {
				return false, false
			}
			delete(w.mr[o.H].perms, "zz zz")
			if o.N%2 == 1 {
				w.mr[o.H].perms["zz zz"] = true
			}
		case "assign":
			if o.N > 1 {
				w.m.prs = slices.DeleteFunc(slices.Clone(w.m.prs), func(p *v2mPR) bool { return p.Principal == "zz" })
			}
			if o.N%2 == 1 {
				w.m.prs = append(w.m.prs, &v2mPR{v2PR: v2PR{Principal: "zz", Tenant: "zz", Role: "zz"}})
			}
		case "edge":
			w.m.edges["zz"] = []string{"zz1"}
		default:
			return false, false
		}
	default:
		return false, false
	}
	return fails, true
}

// churn asks many questions of which nobody is granted anything new, or one
// question many times.
func (w *v2World) churn(o v2Op, ctx *Ctx) error {
	if o.R == nil {
		return nil
	}
	for i := 0; i < o.N; i++ {
		q := *o.R
		switch o.A {
		case "principal":
			q.Principal = "zz" + strconv.Itoa(i)
		case "resource":
			q.Resource += strconv.Itoa(i)
			if q.Can {
				q.Roles = append(slices.Clone(q.Roles), "zz"+strconv.Itoa(i))
			}
		case "tenant":
			q.Tenant = "zz" + strconv.Itoa(i)
		}
		if _, err := w.compare(q, ctx); err != nil {
			return err
		}
		if ctx.Over() {
			break
		}
	}
	return nil
}

// fillers: the ids of what a step adds in bulk.
func fillers(o v2Op) (out []string) {
	for i := 0; i < o.N; i++ {
		out = append(out, "f"+o.K+strconv.Itoa(i))
	}
	return
}

// do performs a configuration step on the real authorizer.
func (r *v2Real) do(o v2Op, start time.Time, record bool) error {
	a := r.a
	switch o.K {
	case "tenant":
		t := r.tenants[o.H]
		if o.F {
			ts := []*v2.Tenant{t}
			for _, h := range o.L {
				ts = append(ts, r.tenants[h])
			}
			a.AddTenants(ts...)
			t = ts[len(ts)-1]
		} else if got := a.AddTenant(t); got != t {
			panic("AddTenant returned another tenant")
		}
		if got, ok := a.GetTenant(t.ID); record && (!ok || got != t) {
			panic(fmt.Sprintf("GetTenant(%q) after AddTenant: %v %v", t.ID, got, ok))
		}
	case "ns":
		if o.F {
			r.tenants[o.H].AddNamespace(o.A, true)
		} else if o.N == 1 {
			r.tenants[o.H].AddNamespace(o.A, false)
		} else {
			r.tenants[o.H].AddNamespace(o.A)
		}
	case "scope":
		var ss []*v2.Scope
		for _, s := range o.S {
			ss = append(ss, v2.NewScope(s))
		}
		return r.tenants[o.H].AddScopeToNamespace(o.A, ss...)
	case "child":
		var ts []*v2.Tenant
		for _, h := range o.L {
			ts = append(ts, r.tenants[h])
		}
		r.tenants[o.H].AddChildTenant(ts...)
	case "defns":
		r.tenants[o.H].DefaultNS = o.A
	case "status":
		r.tenants[o.H].Status = v2.TenantStatus(o.N)
	case "default":
		a.SetDefaultTenant(o.A)
		if got, ok := a.GetDefaultTenant(); record && ok && got.ID != o.A {
			panic(fmt.Sprintf("GetDefaultTenant after SetDefaultTenant(%q): %v", o.A, got.ID))
		}
	case "role":
		role := r.roles[o.H]
		if o.F {
			rs := []*v2.Role{role}
			for _, h := range o.L {
				rs = append(rs, r.roles[h])
			}
			a.AddRoles(rs...)
			role = rs[len(rs)-1]
		} else if got := a.AddRole(role); got != role {
			panic("AddRole returned another role")
		}
		if got, ok := a.GetRole(role.Name); record && (!ok || got != role) {
			panic(fmt.Sprintf("GetRole(%q) after AddRole: %v %v", role.Name, got, ok))
		}
	case "perm":
		r.roles[o.H].AddPermission(perms(o.S)...)
	case "unperm":
		r.roles[o.H].RemovePermission(perms(o.S)...)
	case "edge":
		return a.AddChildRole(o.A, o.S...)
	case "assign":
		var batch []*v2.PrincipalRole
		for _, p := range o.PL {
			pr := &v2.PrincipalRole{Principal: p.Principal, Tenant: p.Tenant, Namespace: p.Namespace, Scope: p.Scope, Role: p.Role, ManageChildTenant: p.Manage}
			if p.Expiry != nil {
				e := start.Add(time.Duration(*p.Expiry))
				pr.Expiry = &e
			}
			batch = append(batch, pr)
		}
		a.AddPrincipalRole(batch...)
		if record {
			r.prs = append(r.prs, batch...)
		}
	case "again":
		for _, pr := range slices.Backward(r.prs) {
			if pr.Principal == o.P.Principal && pr.Tenant == o.P.Tenant && pr.Namespace == o.P.Namespace && pr.Scope == o.P.Scope && pr.Role == o.P.Role && pr.ManageChildTenant == o.P.Manage {
				a.AddPrincipalRole(pr)
				break
			}
		}
	case "chain":
		prev := o.A
		for _, n := range fillers(o) {
			a.AddRole(v2.NewRole(n))
			if err := a.AddChildRole(prev, n); err != nil {
				panic(err)
			}
			prev = n
		}
		return a.AddChildRole(prev, o.B)
	case "tline":
		prev := r.tenants[o.H]
		a.AddPrincipalRole(&v2.PrincipalRole{Principal: o.A, Tenant: prev.ID, ManageChildTenant: true})
		for _, n := range fillers(o) {
			t := v2.NewTenant(n)
			prev.AddChildTenant(t)
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: o.A, Tenant: n, ManageChildTenant: true})
			prev = t
		}
		prev.AddChildTenant(r.tenants[o.L[0]])
	case "twide":
		for _, n := range fillers(o) {
			a.AddTenant(v2.NewTenant(n, o.B))
			a.AddPrincipalRole(&v2.PrincipalRole{Principal: o.A, Tenant: n, Role: "f"})
		}
	case "nsfill":
		for _, n := range fillers(o) {
			r.tenants[o.H].AddNamespace(n)
		}
	case "spin":
		for i := 0; i < o.N; i++ {
			switch o.A {
			case "role":
				a.AddRole(v2.NewRole("zz"))
			case "tenant":
				a.AddTenant(v2.NewTenant("zz"))
			case "perm":
				if i%2 == 0 {
					r.roles[o.H].AddPermission(v2.NewPermission("cat", "zz", "zz"))
				} else {
					r.roles[o.H].RemovePermission(v2.NewPermission("cat", "zz", "zz"))
				}
			case "assign":
				if i%2 == 0 {
					a.AddPrincipalRole(&v2.PrincipalRole{Principal: "zz", Tenant: "zz", Role: "zz"})
				} else if err := a.RemovePrincipalRole(v2.PrincipalRole{Principal: "zz"}); err != nil {
					panic(err)
				}
			case "edge":
				if err := a.AddChildRole("zz", "zz1"); err != nil {
					panic(err)
				}
			}
		}
	case "unassign":
		p := *o.P
		return a.RemovePrincipalRole(v2.PrincipalRole{Principal: p.Principal, Tenant: p.Tenant, Namespace: p.Namespace, Scope: p.Scope, Role: p.Role})
	}
	return nil
}

// apply performs a configuration step on both sides and compares what it reports.
func (w *v2World) apply(o v2Op) error {
	fails, ok := w.model(o)
	if !ok {
		return errSkip
	}
	err := w.real.do(o, w.start, true)
	if (err != nil) != fails {
		return fmt.Errorf("%s reports %v, expected an error: %v", js(o), err, fails)
	}
	return nil
}

// around lists requests on which a step that takes something away bears.
func (w *v2World) around(o v2Op, can bool) (qs []v2Req) {
	seen := map[string]bool{}
	add := func(p *v2mPR, resource, action string) {
		q := v2Req{Principal: p.Principal, Tenant: p.Tenant, Namespace: p.Namespace, Scope: p.Scope}
		if can {
			q.Can, q.Roles = true, []string{p.Role}
		} else {
			q.Resource, q.Action = resource, action
		}
		if k := js(q); !seen[k] && len(qs) < 24 {
			seen[k] = true
			qs = append(qs, q)
		}
	}
	for _, p := range w.mprs {
		switch {
		case o.K == "unperm" && o.H >= 0 && o.H < len(w.mr) && w.m.reaches(p.Role, w.mr[o.H].name):
			for i := 0; i+1 < len(o.S); i += 2 {
				add(p, o.S[i], o.S[i+1])
			}
		case o.K == "unassign" && (w.m.roles[p.Role] != nil):
			for _, s := range slices.Sorted(maps.Keys(w.m.roles[p.Role].perms)) {
				i := strings.LastIndex(s, " ")
				add(p, s[:i], s[i+1:])
			}
		}
	}
	return qs
}

// compare asks both sides.
func (w *v2World) compare(q v2Req, ctx *Ctx) (bool, error) {
	ctx.Queries++
	ctx.Yield()
	now := time.Now()
	var why v2Why
	var want bool
	if q.Can {
		want = w.m.can(q, now)
	} else {
		want = w.m.authorize(q, now, &why)
	}
	got := w.real.ask(q)
	if got != want {
		name := "Authorize"
		if q.Can {
			name = "Can"
		}
		return want, fmt.Errorf("%s(%s) = %v, the current configuration says %v", name, js(q), got, want)
	}
	if !q.Can {
		if why.tenants > 10 {
			ctx.Label("over 10 candidate tenants, grant=%v", want)
		}
		if why.scoped > 0 && q.Scope != "" {
			ctx.Label("scoped permissions, grant=%v", want)
		}
		if why.expired > 0 {
			ctx.Label("expired assignment, grant=%v", want)
		}
		if why.child > 0 {
			ctx.Label("child tenant assignment, grant=%v", want)
		}
		ctx.Label("authorize=%v", want)
	} else {
		ctx.Label("can=%v", want)
	}
	return want, nil
}
