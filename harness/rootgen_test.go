package harness

import (
	"fmt"
	"slices"
	"strconv"
	"strings"

	"pgregory.net/rapid"
)

type rGen struct {
	g          G
	c          rCase
	tids       []string
	nss        []string
	scopes     []string
	principals []string
	roleNames  []string
	groups     []string
	rows       []rRow // approximately, for deriving requests
	perms      map[string][][3]string
	edges      map[string][]string
	kids       map[int][]int
	defs       map[int]string
}

func (x *rGen) op(o rOp) { x.c.Ops = append(x.c.Ops, o) }

func newRGen(t *rapid.T) *rGen {
	g := G{t}
	odd := g.OddPool(40)
	x := &rGen{g: g, perms: map[string][][3]string{}, edges: map[string][]string{}, kids: map[int][]int{}, defs: map[int]string{}}
	nT, nR := g.Int(1, 4), g.Int(1, 5)
	if g.P(5) {
		nT = g.Int(8, 14)
	}
	if g.P(4) {
		nR = g.Int(12, 40)
	}
	if g.P(1) {
		nT = g.Big()
	}
	if g.P(1) {
		nR = g.Big()
	}
	x.tids = g.IDs(nT, "T", odd)
	x.roleNames = g.IDs(nR, "R", odd)
	x.principals = g.IDs(g.Int(1, 3), "p", odd)
	nN, nS := g.Int(1, 3), g.Int(1, 3)
	if g.P(2) {
		nN = g.Int(8, 20)
	}
	if g.P(2) {
		nS = g.Int(8, 20)
	}
	x.nss = g.IDs(nN, "N", odd)
	x.scopes = g.IDs(nS, "S", odd)
	x.groups = g.IDs(g.Int(1, 2), "g", odd)
	if g.P(12) {
		ids := Pick(g, [][]string{x.tids, x.roleNames, x.roleNames, x.principals, x.nss, x.scopes})
		ids[g.Int(0, len(ids)-1)] = emptyID
	}
	if g.P(4) {
		x.groups[0] = ""
	}
	x.c.Tenants = append(x.c.Tenants, x.tids...)
	x.c.Roles = append(x.c.Roles, x.roleNames...)
	if g.P(8) {
		x.c.Tenants = append(x.c.Tenants, Pick(g, x.tids))
	}
	if g.P(8) {
		x.c.Roles = append(x.c.Roles, Pick(g, x.roleNames))
	}
	return x
}

// joined makes one call of several of the steps from the given one on.
func (x *rGen) joined(from int) {
	x.c.Ops = join(x.g, x.c.Ops, from, func(o rOp) string {
		switch o.K {
		case "regT", "regN", "regS", "regP", "regR":
			return o.K
		case "tdesc", "rdesc", "perm", "group":
			return fmt.Sprintf("%s %d %q", o.K, o.H, o.A)
		}
		return ""
	}, func(into *rOp, o rOp) {
		if strings.HasPrefix(o.K, "reg") {
			into.F = true
			if o.K == "regT" || o.K == "regR" {
				into.L = append(slices.Clip(into.L), o.H)
			} else {
				into.S = append(slices.Clip(into.S), o.A)
			}
		}
		into.L, into.S = append(slices.Clip(into.L), o.L...), append(slices.Clip(into.S), o.S...)
	})
}

// register most things; some stay unknown.
func (x *rGen) register(pc int) {
	g := x.g
	defer x.joined(len(x.c.Ops))
	for i := range x.c.Tenants {
		if g.P(pc + 3) {
			x.op(rOp{K: "regT", H: i, F: g.P(20)})
		}
	}
	for _, n := range x.nss {
		if g.P(pc) {
			x.op(rOp{K: "regN", A: n})
		}
	}
	for _, s := range x.scopes {
		if g.P(pc) {
			x.op(rOp{K: "regS", A: s, F: g.P(20)})
		}
	}
	for _, p := range x.principals {
		if g.P(pc) {
			x.op(rOp{K: "regP", A: p, F: g.P(20)})
		}
	}
	for i := range x.c.Roles {
		if g.P(pc) {
			x.op(rOp{K: "regR", H: i, F: g.P(20)})
		}
	}
}

func (x *rGen) drawPerm() [3]string {
	return [3]string{Pick(x.g, x.groups), x.g.PermResource(), x.g.PermAction()}
}

func (x *rGen) roleOps() {
	g := x.g
	defer x.joined(len(x.c.Ops))
	for i, n := range x.c.Roles {
		k := g.Int(0, 2)
		if g.P(3) {
			k = g.Int(10, 25)
			if len(x.c.Roles) < 8 && g.P(15) {
				k = g.Big()
			}
		}
		for ; k > 0; k-- {
			p := x.drawPerm()
			kind := "perm"
			if g.P(20) {
				kind = "group"
			}
			x.op(rOp{K: kind, H: i, A: p[0], S: []string{p[1], p[2]}})
			x.perms[n] = append(x.perms[n], p)
		}
	}
	chain := len(x.roleNames) > 8 || g.P(15)
	for i := 1; i < len(x.roleNames); i++ {
		switch {
		case chain && g.P(90):
			x.edge(i-1, i)
		case g.P(50):
			x.edge(g.Int(0, i-1), i)
		}
	}
	if g.P(12) {
		x.edge(g.Int(0, len(x.roleNames)-1), g.Int(0, len(x.roleNames)-1))
	}
}

// bulk adds a lot of one thing, in one step, at the place where it matters.
func (x *rGen) bulk() {
	g := x.g
	if raceOn {
		return
	}
	n := g.Huge()
	p := Pick(g, x.principals)
	i, j := g.Int(0, len(x.roleNames)-1), g.Int(0, len(x.roleNames)-1)
	s, t := g.Int(0, len(x.tids)-1), g.Int(0, len(x.tids)-1)
	mine := func(row rRow, k int) { // so that requests go there
		x.op(rOp{K: "data", D: &row})
		for ; k > 0; k-- {
			x.rows = append(x.rows, row)
		}
	}
	ri, rj, ts, tt := x.roleNames[i], x.roleNames[j], x.tids[s], x.tids[t]
	if x.perms[rj] == nil {
		d := x.drawPerm()
		x.op(rOp{K: "perm", H: j, A: d[0], S: d[1:]})
		x.perms[rj] = append(x.perms[rj], d)
	}
	switch g.Int(0, 6) {
	case 6: // the tenant has many roles, and among them one below the principal's
		if i == j {
			return
		}
		x.edge(i, j)
		x.op(rOp{K: "data", D: &rRow{T: tt, R: rj}})
		x.op(rOp{K: "rows", A: Pick(g, []string{"R", "R", "R", "P"}), N: n, D: &rRow{T: tt, R: rj}})
		mine(rRow{T: tt, P: p, R: ri}, 8)
	case 0:
		x.op(rOp{K: "rchain", H: i, L: []int{j}, N: n})
		x.edges[ri] = []string{rj}
		x.op(rOp{K: "data", D: &rRow{T: ts, R: rj}})
		mine(rRow{T: ts, P: p, R: ri}, 8)
	case 1:
		x.op(rOp{K: "tline", H: s, L: []int{t}, N: n})
		x.kids[s] = []int{t}
		mine(rRow{T: ts, P: p, R: rj, M: "true"}, 8)
	case 2: // permissions
		d := x.drawPerm()
		o := rOp{K: "perm", H: j, A: d[0]}
		for k := 0; k < n; k++ {
			o.S = append(o.S, "/f"+strconv.Itoa(k), "GET")
		}
		at := 2 * g.Int(0, n-1)
		o.S[at], o.S[at+1] = "/last/:x", "GET"
		x.op(o)
		for k := 0; k < 4; k++ {
			x.perms[rj] = append(x.perms[rj], [3]string{d[0], "/last/:x", "GET"})
		}
		mine(rRow{T: tt, P: p, R: rj}, 4)
	default: // rows
		d := rRow{T: tt, P: p, R: rj}
		if g.P(40) {
			d.N = Pick(g, x.nss)
		}
		if g.P(40) {
			d.S = Pick(g, x.scopes)
		}
		mine(d, 0)
		like := d
		if g.P(30) {
			like.R = ""
		}
		o := rOp{K: "rows", A: Pick(g, []string{"P", "R", "N", "S", "T"}), N: n, D: &like}
		if g.P(30) {
			like.P = ""
		}
		if o.A != "P" && like.P != "" { // requests without a tenant take quadratic time
			o.N = Pick(g, []int{65, 140})
		}
		x.op(o)
		if g.P(50) {
			d.S = Pick(g, x.scopes)
			d.N = ""
		}
		mine(d, 8)
	}
}

func (x *rGen) edge(p, c int) {
	x.op(rOp{K: "rdesc", H: p, L: []int{c}})
	x.edges[x.c.Roles[p]] = append(x.edges[x.c.Roles[p]], x.c.Roles[c])
}

func (x *rGen) tenantTree() {
	g := x.g
	defer x.joined(len(x.c.Ops))
	chain := g.P(20) || len(x.tids) > 16 && g.P(50)
	for i := 1; i < len(x.tids); i++ {
		if g.P(70) || chain && g.P(95) {
			p := g.Int(0, i-1)
			if chain {
				p = i - 1
			}
			x.op(rOp{K: "tdesc", H: p, L: []int{i}})
			x.kids[p] = append(x.kids[p], i)
		}
	}
	if chain && g.P(50) { // somebody manages them from high up
		h := g.Int(0, 1) % len(x.tids)
		o := rOp{K: "assign", H: h, A: Pick(g, x.principals), S: []string{Pick(g, x.roleNames)}, F: true}
		x.op(o)
		for i := 0; i < 4; i++ { // requests are derived from it more often
			x.rows = append(x.rows, rRow{T: x.tids[h], P: o.A, R: o.S[0], M: "true"})
		}
	}
	if g.P(8) {
		x.op(rOp{K: "tdesc", H: g.Int(0, len(x.tids)-1), L: []int{g.Int(0, len(x.tids)-1)}})
	}
}

// assignment draws one operation that adds rows.
func (x *rGen) assignment(defaults bool) {
	g := x.g
	h := g.Int(0, len(x.tids)-1)
	if g.P(4) {
		h = g.Int(0, len(x.c.Tenants)-1)
	}
	t := x.c.Tenants[h]
	p, r, n, s := Pick(g, x.principals), Pick(g, x.roleNames), Pick(g, x.nss), Pick(g, x.scopes)
	add := func(rows ...rRow) {
		for _, row := range rows {
			x.rows = append(x.rows, row)
			if d := x.defs[h]; d != "" && row.P != "" && row.N == "" {
				row.N = d
				x.rows = append(x.rows, row)
			}
		}
	}
	switch k := g.Int(0, 19); {
	case k < 6:
		roles := []string{r}
		for g.P(20) {
			roles = append(roles, Pick(g, x.roleNames))
		}
		o := rOp{K: "assign", H: h, A: p, S: roles, F: g.P(50)}
		x.op(o)
		for _, r := range roles {
			add(rRow{T: t, P: p, R: r, M: strconv.FormatBool(o.F)})
		}
	case k < 9:
		ss := []string{s}
		for g.P(20) {
			ss = append(ss, Pick(g, x.scopes))
		}
		o := rOp{K: "scopes", H: h, A: p, S: ss, F: g.P(40)}
		x.op(o)
		for _, s := range ss {
			add(rRow{T: t, P: p, S: s, M: strconv.FormatBool(o.F)})
		}
	case k < 11:
		x.op(rOp{K: "pin", H: h, A: n, B: p, C: r})
		add(rRow{T: t, N: n, P: p, R: r})
	case k < 12:
		x.op(rOp{K: "tns", H: h, S: []string{n}})
		add(rRow{T: t, N: n})
	case k < 13:
		x.op(rOp{K: "tscope", H: h, S: Some(g, x.scopes, 60)})
		add(rRow{T: t, S: s})
	case k < 14:
		x.op(rOp{K: "trole", H: h, S: Some(g, x.roleNames, 50)})
	case k < 16:
		x.op(rOp{K: "tsn", H: h, A: n, B: s})
		add(rRow{T: t, N: n, S: s})
	case k < 17 && defaults:
		x.op(rOp{K: "defns", H: h, A: n})
		x.defs[h] = n
	default:
		row := rRow{T: t, P: p}
		if g.P(70) {
			row.R = r
		}
		if g.P(50) {
			row.N = n
		}
		if g.P(50) {
			row.S = s
		}
		if g.P(25) {
			row.P = ""
		}
		if g.P(4) {
			row.T = ""
		}
		if g.P(60) {
			row.M = strconv.FormatBool(g.P(50))
		}
		x.op(rOp{K: "data", D: &row})
		x.rows = append(x.rows, row)
	}
}

// request draws a request near the assignments. activity: percent with one.
func (x *rGen) request(activity int) rReq {
	g := x.g
	q := rReq{P: Pick(g, x.principals), T: Pick(g, x.tids)}
	role := Pick(g, x.roleNames)
	if len(x.rows) > 0 && g.P(93) {
		row := Pick(g, x.rows)
		if row.P != "" {
			q.P = row.P
		}
		if row.R != "" {
			role = row.R
		}
		if row.T != "" {
			q.T = row.T
		}
		q.N, q.S = row.N, row.S
		if row.M == "true" && g.P(50) { // a tenant below
			far := g.P(30)
			for i := range x.tids {
				if x.tids[i] == q.T {
					for d := 0; d < 300 && len(x.kids[i]) > 0; d++ {
						i = Pick(g, x.kids[i])
						q.T = x.tids[i]
						if !far && g.P(50) {
							break
						}
					}
					break
				}
			}
		}
		if q.N == "" && g.P(25) {
			q.N = Pick(g, x.nss)
		}
		if q.S == "" && g.P(25) {
			q.S = Pick(g, x.scopes)
		}
		if g.P(8) {
			q.N = ""
		}
		if g.P(8) {
			q.S = ""
		}
		if g.P(12) {
			q.T = ""
			if q.N == "" {
				q.N = Pick(g, x.nss)
			}
			if q.S == "" && g.P(80) {
				q.S = Pick(g, x.scopes)
			}
		}
		if g.P(6) {
			q.P = Pick(g, x.principals)
		}
		if g.P(6) {
			q.T = Pick(g, x.tids)
		}
	} else {
		if g.P(30) {
			q.T = ""
		}
		if g.P(50) {
			q.N = Pick(g, x.nss)
		}
		if g.P(50) {
			q.S = Pick(g, x.scopes)
		}
	}
	if g.P(2) {
		*Pick(g, []*string{&q.T, &q.N, &q.S, &q.P}) = "unknown"
	}
	if g.P(activity) {
		q.HG, q.HA = true, true
		q.G = Pick(g, x.groups)
		far := g.P(20)
		for i := 0; i < 400 && len(x.edges[role]) > 0 && (far || g.P(65)); i++ {
			role = Pick(g, x.edges[role])
		}
		ps := x.perms[role]
		if len(ps) == 0 {
			for _, r := range x.roleNames {
				ps = append(ps, x.perms[r]...)
			}
		}
		if len(ps) > 0 && g.P(95) {
			p := Pick(g, ps)
			q.G = p[0]
			q.A = g.Instance(p[1]) + " " + g.Instance(p[2])
			if g.P(15) {
				q.A = g.Near(q.A)
			}
			if g.P(6) {
				q.G = Pick(g, x.groups)
			}
		} else {
			q.A = g.Instance(g.PermResource()) + " " + g.Instance(g.PermAction())
		}
		switch g.Int(0, 29) {
		case 0:
			q.HG, q.G = false, ""
		case 1:
			q.HA, q.A = false, ""
		}
	}
	return q
}

func (x *rGen) probes(lo, hi, activity int) {
	for n := x.g.Int(lo, hi); n > 0; n-- {
		x.c.Probes = append(x.c.Probes, x.request(activity))
	}
}
