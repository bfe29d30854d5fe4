package harness

import (
	"fmt"
	"hash/crc32"
	"slices"
	"strconv"

	permission "github.com/oarkflow/permission"
)

// A case of the main package: objects made up front, then a history.
type rCase struct {
	Tenants []string // tenant objects (ids may repeat: the first registered counts)
	Roles   []string // role objects
	Ops     []rOp
	Probes  []rReq `json:",omitempty"`
}

type rOp struct {
	K string
	H int      `json:",omitempty"` // tenant or role object
	L []int    `json:",omitempty"`
	A string   `json:",omitempty"`
	B string   `json:",omitempty"`
	C string   `json:",omitempty"`
	S []string `json:",omitempty"`
	F bool     `json:",omitempty"`
	N int      `json:",omitempty"` // how many, where a step adds in bulk
	D *rRow    `json:",omitempty"`
	R *rReq    `json:",omitempty"`
}

// rRow is one assignment; empty means the field is not given.
type rRow struct {
	T, N, S, P, R string `json:",omitempty"`
	M             string `json:",omitempty"` // "", "true", "false"
}

type rReq struct {
	P       string
	T, N, S string `json:",omitempty"`
	G, A    string `json:",omitempty"` // attribute group, activity
	HG, HA  bool   `json:",omitempty"` // given at all?
}

// "" is an id like any other in the main package (nil means not given); in
// cases and models, where "" means not given, it is written emptyID.
const emptyID = "(empty)"

func rid(s string) string {
	if s == emptyID {
		return ""
	}
	return s
}

func rids(ss []string) (out []string) {
	for _, s := range ss {
		out = append(out, rid(s))
	}
	return
}

func unrid(s string) string {
	if s == "" {
		return emptyID
	}
	return s
}

func (r rReq) options() (out []func(*permission.Option)) {
	if r.T != "" {
		out = append(out, permission.WithTenant(rid(r.T)))
	}
	if r.N != "" {
		out = append(out, permission.WithNamespace(rid(r.N)))
	}
	if r.S != "" {
		out = append(out, permission.WithScope(rid(r.S)))
	}
	if r.HG {
		out = append(out, permission.WithAttributeGroup(r.G))
	}
	if r.HA {
		out = append(out, permission.WithActivity(r.A))
	}
	return anyOrder(r, out)
}

// anyOrder puts the options of a request in some order, some of them twice; the
// order is a function of the request, so that a replay asks alike.
func anyOrder[F any](r rReq, out []F) []F {
	h := crc32.ChecksumIEEE([]byte(r.P + r.T + r.N + r.S + r.G + r.A))
	next := func(n int) int {
		h = h*1664525 + 1013904223
		return int(h>>16) % n
	}
	if next(3) == 0 {
		return out
	}
	if len(out) > 0 && next(4) == 0 {
		out = append(out, out[next(len(out))])
	}
	for i := len(out) - 1; i > 0; i-- {
		j := next(i + 1)
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (r rReq) flags() string {
	f := ""
	for _, x := range []struct {
		s string
		n string
	}{{r.T, "T"}, {r.N, "N"}, {r.S, "S"}} {
		if x.s != "" {
			f += x.n
		}
	}
	if f == "" {
		f = "none"
	}
	if r.HG || r.HA {
		f += "+activity"
	}
	return f
}

// ---- reference model ----

type rmRole struct {
	id    string
	perms map[string]map[string]bool
	desc  map[string]*rmRole
}

type rmTenant struct {
	id         string
	desc       map[string]*rmTenant
	def        string
	registered bool
}

type rModel struct {
	tenants    map[string]*rmTenant
	ns         map[string]bool
	scopes     map[string]bool
	principals map[string]bool
	roles      map[string]*rmRole
	rows       map[rRow]bool
}

func newRModel() *rModel {
	return &rModel{tenants: map[string]*rmTenant{}, ns: map[string]bool{}, scopes: map[string]bool{}, principals: map[string]bool{}, roles: map[string]*rmRole{}, rows: map[rRow]bool{}}
}

func (t *rmTenant) descendants() map[string]bool {
	out := map[string]bool{}
	seen := map[*rmTenant]bool{t: true}
	stack := []*rmTenant{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for id, d := range x.desc {
			if !seen[d] {
				seen[d] = true
				out[id] = true
				stack = append(stack, d)
			}
		}
	}
	return out
}

func (r *rmRole) below() map[*rmRole]bool {
	seen := map[*rmRole]bool{r: true}
	stack := []*rmRole{r}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		for _, d := range x.desc {
			if !seen[d] {
				seen[d] = true
				stack = append(stack, d)
			}
		}
	}
	delete(seen, r)
	return seen
}

func (r *rmRole) own(group, activity string) bool {
	for p := range r.perms[group] {
		if refMatch(activity, p) {
			return true
		}
	}
	return false
}

// has: own permissions, or those of a (permitted) role below.
func (r *rmRole) has(group, activity string, allowed map[string]bool) bool {
	if r.own(group, activity) {
		return true
	}
	for d := range r.below() {
		if (len(allowed) == 0 || allowed[d.id]) && d.own(group, activity) {
			return true
		}
	}
	return false
}

func (m *rModel) member(p string) map[string]bool {
	out := map[string]bool{}
	for r := range m.rows {
		if r.P == p && r.T != "" {
			out[r.T] = true
		}
	}
	return out
}

// managing: tenants whose descendants p may manage.
func (m *rModel) managing(p string) map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for r := range m.rows {
		if r.P == p && r.T != "" && r.M == "true" && m.tenants[r.T] != nil {
			out[r.T] = m.tenants[r.T].descendants()
		}
	}
	return out
}

func (m *rModel) implicit(p string) map[string]bool {
	out := m.member(p)
	for _, ds := range m.managing(p) {
		for d := range ds {
			out[d] = true
		}
	}
	return out
}

func (m *rModel) authorize(q rReq) bool {
	if !m.principals[q.P] || len(m.implicit(q.P)) == 0 {
		return false
	}
	if (q.T != "" && m.tenants[q.T] == nil) || (q.N != "" && !m.ns[q.N]) || (q.S != "" && !m.scopes[q.S]) {
		return false
	}
	if q.T == "" {
		if q.N == "" || q.S == "" {
			return false
		}
		return m.decide(q, sortedKeys(m.member(q.P)))
	}
	if !m.implicit(q.P)[q.T] {
		return false
	}
	if m.decide(q, []string{q.T}) {
		return true
	}
	for t, ds := range m.managing(q.P) {
		if t != q.T && ds[q.T] && m.decide(q, []string{t}) {
			return true
		}
	}
	return false
}

// decide judges the request on the rows of the given tenants.
func (m *rModel) decide(q rReq, tenants []string) bool {
	if q.HG || q.HA {
		if !q.HG || !q.HA {
			return false
		}
		roles, allowed := map[string]bool{}, map[string]bool{}
		for r := range m.rows {
			if !slices.Contains(tenants, r.T) || r.R == "" {
				continue
			}
			allowed[r.R] = true
			if r.P == q.P && (q.N == "" || r.N == "" || r.N == q.N) && (q.S == "" || r.S == "" || r.S == q.S) {
				roles[r.R] = true
			}
		}
		for id := range roles {
			if role := m.roles[id]; role != nil && role.has(q.G, q.A, allowed) {
				return true
			}
		}
		return false
	}
	for r := range m.rows {
		if !slices.Contains(tenants, r.T) {
			continue
		}
		mine := r.P == "" || r.P == q.P
		switch {
		case q.N == "" && q.S == "":
			if r.P == q.P {
				return true
			}
		case q.S == "":
			if mine && r.N == q.N {
				return true
			}
		case q.N == "":
			if mine && r.S == q.S {
				return true
			}
		default:
			if mine && r.S == q.S && (r.N == "" || r.N == q.N) {
				return true
			}
		}
	}
	return false
}

// ---- both sides ----

type rWorld struct {
	c  *rCase
	m  *rModel
	mt []*rmTenant
	mr []*rmRole
	u  *permission.RoleManager
	rt []*permission.Tenant
	rr []*permission.Role

	turn    int
	results int
	kept    []rKept
}

func newRWorld(c *rCase) *rWorld {
	w := &rWorld{c: c, m: newRModel(), u: permission.New()}
	for _, id := range c.Tenants {
		w.mt = append(w.mt, &rmTenant{id: id, desc: map[string]*rmTenant{}})
		w.rt = append(w.rt, permission.NewTenant(rid(id)))
	}
	for _, id := range c.Roles {
		w.mr = append(w.mr, &rmRole{id: id, perms: map[string]map[string]bool{}, desc: map[string]*rmRole{}})
		w.rr = append(w.rr, permission.NewRole(rid(id)))
	}
	return w
}

func val(s string) any {
	if s == "" {
		return nil
	}
	return rid(s)
}

func (r rRow) data() *permission.Data {
	d := &permission.Data{Tenant: val(r.T), Namespace: val(r.N), Scope: val(r.S), Principal: val(r.P), Role: val(r.R)}
	if r.M != "" {
		d.ManageDescendants = r.M == "true"
	}
	return d
}

func rowOf(d *permission.Data) rRow {
	str := func(v any) string {
		if v == nil {
			return ""
		}
		return unrid(v.(string))
	}
	r := rRow{T: str(d.Tenant), N: str(d.Namespace), S: str(d.Scope), P: str(d.Principal), R: str(d.Role)}
	if b, ok := d.ManageDescendants.(bool); ok {
		r.M = fmt.Sprint(b)
	}
	return r
}

func (w *rWorld) row(r rRow) { w.m.rows[r] = true }

func (w *rWorld) okTenant(h int) bool { return h >= 0 && h < len(w.mt) && w.mt[h].registered }
func (w *rWorld) okRole(h int) bool   { return h >= 0 && h < len(w.mr) }

// fillers: the ids of what a step adds in bulk.
func (o rOp) fillers() (out []string) {
	for i := 0; i < o.N; i++ {
		out = append(out, "f"+o.K+strconv.Itoa(i))
	}
	return
}

func (o rOp) bulkRows() (out []rRow) {
	for _, f := range o.fillers() {
		r := *o.D
		switch o.A {
		case "P":
			r.P = f
		case "R":
			r.R = f
		case "N":
			r.N = f
		case "S":
			r.S = f
		case "T":
			r.T = f
		}
		out = append(out, r)
	}
	return
}

// handles and ids: what a registration registers.
func (o rOp) handles() []int { return append([]int{o.H}, o.L...) }
func (o rOp) ids() []string  { return append([]string{o.A}, o.S...) }

// model performs a step on the model.
func (w *rWorld) model(o rOp) (fails, ok bool) {
	m := w.m
	switch o.K {
	case "churn":
	case "spin": // N changes that bear on no question
		if o.H < 0 || o.H >= len(w.mr) {
			return false, false
		}
	case "regT":
		if !inRange(len(w.mt), o.handles()...) {
			return false, false
		}
		for _, h := range o.handles() {
			w.mt[h].registered = true
			if m.tenants[w.mt[h].id] == nil {
				m.tenants[w.mt[h].id] = w.mt[h]
			}
		}
	case "regN", "regS", "regP":
		for _, id := range o.ids() {
			map[string]map[string]bool{"regN": m.ns, "regS": m.scopes, "regP": m.principals}[o.K][id] = true
		}
	case "regR":
		for _, h := range o.handles() {
			if !w.okRole(h) {
				return false, false
			}
		}
		for _, h := range o.handles() {
			if m.roles[w.mr[h].id] == nil {
				m.roles[w.mr[h].id] = w.mr[h]
			}
		}
	case "perm", "group":
		if !w.okRole(o.H) {
			return false, false
		}
		r := w.mr[o.H]
		if o.K == "group" && r.perms[o.A] != nil {
			return false, true // the role keeps what it has
		}
		if r.perms[o.A] == nil {
			r.perms[o.A] = map[string]bool{}
		}
		for i := 0; i+1 < len(o.S); i += 2 {
			r.perms[o.A][o.S[i]+" "+o.S[i+1]] = true
		}
	case "rdesc":
		if !w.okRole(o.H) {
			return false, false
		}
		for _, h := range o.L {
			if !w.okRole(h) {
				return false, false
			}
		}
		for _, h := range o.L {
			if w.mr[o.H].desc[w.mr[h].id] == nil {
				w.mr[o.H].desc[w.mr[h].id] = w.mr[h]
			}
		}
	case "data":
		if o.D == nil {
			return false, false
		}
		w.row(*o.D)
	case "rchain": // many registered roles in a line, from role H to role L
		if !w.okRole(o.H) || len(o.L) != 1 || !w.okRole(o.L[0]) {
			return false, false
		}
		prev := w.mr[o.H]
		for _, id := range o.fillers() {
			r := &rmRole{id: id, perms: map[string]map[string]bool{}, desc: map[string]*rmRole{}}
			m.roles[id] = r
			prev.desc[id] = r
			prev = r
		}
		if last := w.mr[o.L[0]]; prev.desc[last.id] == nil {
			prev.desc[last.id] = last
		}
	case "rows": // many rows like D, with a different value where D has none of what A names
		if o.D == nil {
			return false, false
		}
		for _, r := range o.bulkRows() {
			w.row(r)
		}
	default:
		if !w.okTenant(o.H) {
			return false, false
		}
		t := w.mt[o.H]
		switch o.K {
		case "tdesc":
			for _, h := range o.L {
				if !w.okTenant(h) {
					return false, false
				}
			}
			for _, h := range o.L {
				d := w.mt[h]
				if t.desc[d.id] == nil {
					t.desc[d.id] = d
				}
				if t.def != "" {
					w.row(rRow{T: d.id, N: t.def})
					d.def = t.def
				}
			}
		case "tline": // many registered tenants in a line, from tenant H to tenant L
			if len(o.L) != 1 || !w.okTenant(o.L[0]) || t.def != "" {
				return false, false
			}
			prev := t
			for _, id := range o.fillers() {
				d := &rmTenant{id: id, desc: map[string]*rmTenant{}, registered: true}
				m.tenants[id] = d
				prev.desc[id] = d
				prev = d
			}
			if last := w.mt[o.L[0]]; prev.desc[last.id] == nil {
				prev.desc[last.id] = last
			}
		case "defns":
			if m.ns[o.A] {
				t.def = o.A
			}
		case "tns":
			for _, n := range o.S {
				w.row(rRow{T: t.id, N: n})
			}
		case "tscope":
			for _, s := range o.S {
				w.row(rRow{T: t.id, S: s})
			}
		case "trole":
			for _, r := range o.S {
				w.row(rRow{T: t.id, R: r})
			}
		case "tsn":
			w.row(rRow{T: t.id, N: o.A, S: o.B})
		case "pin":
			w.row(rRow{T: t.id, N: o.A, P: o.B, R: o.C})
		case "assign": // principal A, roles S
			for _, r := range o.S {
				if !m.principals[o.A] || m.roles[r] == nil {
					return true, true
				}
				w.row(rRow{T: t.id, P: o.A, R: r, M: fmt.Sprint(o.F)})
				if t.def != "" {
					w.row(rRow{T: t.id, N: t.def, P: o.A, R: r, M: fmt.Sprint(o.F)})
				}
			}
		case "scopes": // principal A, scopes S
			for _, s := range o.S {
				if !m.principals[o.A] || !m.scopes[s] {
					return true, true
				}
				w.row(rRow{T: t.id, P: o.A, S: s, M: fmt.Sprint(o.F)})
				if t.def != "" {
					w.row(rRow{T: t.id, N: t.def, P: o.A, S: s, M: fmt.Sprint(o.F)})
				}
			}
		default:
			return false, false
		}
	}
	return fails, true
}

func attrs(s []string) (out []*permission.Attribute) {
	for i := 0; i+1 < len(s); {
		if acts := sameResource(s[i:]); len(acts) > 1 {
			out = append(out, permission.NewAttributes(s[i], acts...)...)
			i += 2 * len(acts)
			continue
		}
		out = append(out, permission.NewAttribute(s[i], s[i+1]))
		i += 2
	}
	return
}

// do performs a step on the real role manager.
func (w *rWorld) do(o rOp) error {
	u := w.u
	switch o.K {
	case "spin":
		for i := 0; i < o.N; i++ {
			switch o.A {
			case "data":
				u.AddData(&permission.Data{Tenant: "zz", Principal: "zz"})
			case "role":
				u.AddRole(permission.NewRole("zz"))
			case "tenant":
				u.AddTenant(permission.NewTenant("zz"))
			case "principal":
				u.AddPrincipal(permission.NewPrincipal("zz"))
			case "perm":
				if err := w.rr[o.H].AddPermission("zz", permission.NewAttribute("zz", "zz")); err != nil {
					return err
				}
			}
		}
	case "regT":
		if o.F {
			var ts []*permission.Tenant
			for _, h := range o.handles() {
				ts = append(ts, w.rt[h])
			}
			u.AddTenants(ts...)
		} else {
			u.AddTenant(w.rt[o.H])
		}
	case "regN":
		if o.F {
			var ns []*permission.Namespace
			for _, id := range o.ids() {
				ns = append(ns, permission.NewNamespace(rid(id)))
			}
			u.AddNamespaces(ns...)
		} else {
			u.AddNamespace(permission.NewNamespace(rid(o.A)))
		}
	case "regS":
		if o.F {
			var ss []*permission.Scope
			for _, id := range o.ids() {
				ss = append(ss, permission.NewScope(rid(id)))
			}
			u.AddScopes(ss...)
		} else {
			u.AddScope(permission.NewScope(rid(o.A)))
		}
	case "regP":
		if o.F {
			var ps []*permission.Principal
			for _, id := range o.ids() {
				ps = append(ps, permission.NewPrincipal(rid(id)))
			}
			u.AddPrincipals(ps...)
		} else {
			u.AddPrincipal(permission.NewPrincipal(rid(o.A)))
		}
	case "regR":
		if o.F {
			var rs []*permission.Role
			for _, h := range o.handles() {
				rs = append(rs, w.rr[h])
			}
			u.AddRoles(rs...)
		} else {
			u.AddRole(w.rr[o.H])
		}
	case "perm":
		return w.rr[o.H].AddPermission(o.A, attrs(o.S)...)
	case "group":
		g := permission.NewAttributeGroup(o.A)
		g.AddAttributes(attrs(o.S)...)
		return w.rr[o.H].AddPermissionResourceGroup(g)
	case "rdesc":
		var ds []*permission.Role
		for _, h := range o.L {
			ds = append(ds, w.rr[h])
		}
		return w.rr[o.H].AddDescendant(ds...)
	case "data":
		insertRow(u, o.D.data())
	case "rows":
		for _, r := range o.bulkRows() {
			insertRow(u, r.data())
		}
	case "rchain":
		prev := w.rr[o.H]
		for _, id := range o.fillers() {
			r := u.AddRole(permission.NewRole(id))
			if err := prev.AddDescendant(r); err != nil {
				return err
			}
			prev = r
		}
		return prev.AddDescendant(w.rr[o.L[0]])
	case "tline":
		prev := w.rt[o.H]
		for _, id := range o.fillers() {
			t := u.AddTenant(permission.NewTenant(id))
			if err := prev.AddDescendant(t); err != nil {
				return err
			}
			prev = t
		}
		return prev.AddDescendant(w.rt[o.L[0]])
	case "tdesc":
		var ds []*permission.Tenant
		for _, h := range o.L {
			ds = append(ds, w.rt[h])
		}
		return w.rt[o.H].AddDescendant(ds...)
	case "defns":
		w.rt[o.H].SetDefaultNamespace(rid(o.A))
	case "tns":
		var ns []*permission.Namespace
		for _, n := range o.S {
			ns = append(ns, permission.NewNamespace(rid(n)))
		}
		w.rt[o.H].AddNamespaces(ns...)
	case "tscope":
		var ss []*permission.Scope
		for _, s := range o.S {
			ss = append(ss, permission.NewScope(rid(s)))
		}
		w.rt[o.H].AddScopes(ss...)
	case "trole":
		var rs []*permission.Role
		for _, r := range o.S {
			rs = append(rs, permission.NewRole(rid(r)))
		}
		w.rt[o.H].AddRoles(rs...)
	case "tsn":
		w.rt[o.H].AddScopesToNamespace(rid(o.A), rid(o.B))
	case "pin":
		w.rt[o.H].AddPrincipalInNamespace(rid(o.B), rid(o.A), rid(o.C))
	case "assign":
		if len(o.S) == 1 {
			return w.rt[o.H].AddPrincipalWithRole(rid(o.A), rid(o.S[0]), o.F)
		}
		return w.rt[o.H].AddPrincipal(rid(o.A), o.F, rids(o.S)...)
	case "scopes":
		if len(o.S) == 1 {
			return w.rt[o.H].AddScopeToPrincipal(rid(o.A), rid(o.S[0]), o.F)
		}
		return w.rt[o.H].AssignScopesToPrincipal(rid(o.A), o.F, rids(o.S)...)
	}
	return nil
}

func (w *rWorld) apply(o rOp) error {
	fails, ok := w.model(o)
	if !ok {
		return errSkip
	}
	if err := w.do(o); (err != nil) != fails {
		return fmt.Errorf("%s reports %v, expected an error: %v", js(o), err, fails)
	}
	return nil
}

// vary is one of many questions like q.
func (q rReq) vary(what string, i int) rReq {
	switch x := "zz" + strconv.Itoa(i); what {
	case "principal":
		q.P = x
	case "tenant":
		q.T = x
	case "scope":
		q.S = x
	case "activity":
		q.A += x
	}
	return q
}

// churn asks many questions at once.
func (w *rWorld) churn(o rOp, ctx *Ctx) error {
	for i := 0; i < o.N && o.R != nil && !ctx.Over(); i++ {
		if _, err := w.compare(o.R.vary(o.A, i), ctx); err != nil {
			return err
		}
	}
	return nil
}

func (w *rWorld) ask(q rReq) bool {
	opts := q.options()
	if len(opts) > 0 && len(q.P+q.T+q.N+q.S)%5 == 0 { // options may be used again
		w.u.Authorize(rid(q.P), opts...)
	}
	return w.u.Authorize(rid(q.P), opts...)
}

func (w *rWorld) compare(q rReq, ctx *Ctx) (bool, error) {
	ctx.Queries++
	ctx.Yield()
	want := w.m.authorize(q)
	if got := w.ask(q); got != want {
		return want, fmt.Errorf("Authorize(%s) = %v, the assignments say %v", js(q), got, want)
	}
	ctx.Label("%s=%v", q.flags(), want)
	if want && q.T != "" && !w.m.member(q.P)[q.T] {
		ctx.Label("granted from a managing ancestor")
	}
	return want, nil
}

// insertRow stores a row by one of the ways there are, by what is in it.
func insertRow(u *permission.RoleManager, d *permission.Data) {
	n := 0
	for _, c := range []byte(fmt.Sprint(*d)) {
		n += int(c)
	}
	switch n % 4 {
	case 0:
		u.Data().Insert(d)
	case 1:
		u.Source().Insert(d)
	default:
		u.AddData(d)
	}
}
