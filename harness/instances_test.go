package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"log/slog"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sync"
	"sync/atomic"
	"testing"

	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C24: instances do not affect each other

// A tape is a case of another property: a whole life of one manager,
// authorizer, role graph, row store or list.
type tape struct {
	Prop string
	Case json.RawMessage
}

type instCase struct {
	Tapes []tape
	Turns []int // whose turn it is next; none: all at the same time
}

var tapeKinds = []string{"C02", "C02", "C02", "C06", "C06", "C10", "C10", "C10", "C11", "C11", "C15", "C15", "C18", "C18", "C18", "C19", "C19", "C20", "C20", "C03", "C14", "C16", "C21", "C22", "C23", "C01"}

// thin drops some of the steps of a case: the same ids, another configuration.
func thin(g G, b []byte) []byte {
	var c map[string]any
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	if d.Decode(&c) != nil {
		return b
	}
	ops, ok := c["Ops"].([]any)
	if !ok {
		return b
	}
	pc := Pick(g, []int{5, 15, 30})
	var left []any
	for _, o := range ops {
		if !g.P(pc) {
			left = append(left, o)
		}
	}
	c["Ops"] = left
	out, err := json.Marshal(c)
	if err != nil {
		return b
	}
	return out
}

func genInst(t *rapid.T) instCase {
	g := G{t}
	var c instCase
	n := g.Int(2, 4)
	for len(c.Tapes) < n {
		if k := len(c.Tapes); k > 0 && g.P(70) {
			o := c.Tapes[g.Int(0, k-1)]
			c.Tapes = append(c.Tapes, tape{o.Prop, thin(g, o.Case)})
			continue
		}
		id := Pick(g, tapeKinds)
		if len(c.Tapes) > 0 && g.P(60) {
			id = c.Tapes[0].Prop
		}
		b, err := json.Marshal(props[id][0].gen(t))
		if err != nil {
			panic(err)
		}
		c.Tapes = append(c.Tapes, tape{id, b})
	}
	if g.P(50) {
		for k := g.Int(2, 12); k > 0; k-- {
			c.Turns = append(c.Turns, g.Int(0, n-1))
		}
	}
	return c
}

// play runs one tape; the oracle is that of the tape's own property.
func (x tape) play(ctx *Ctx) (err error) {
	parts := props[x.Prop]
	if len(parts) == 0 {
		return nil
	}
	c, err := parts[0].decode(x.Case)
	if err != nil {
		return nil
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return parts[0].eval(c, ctx)
}

var aloneWrong atomic.Int64

// rightAlone tells whether the tape is judged right in a process of its own,
// where no other instance ever was.
func (x tape) rightAlone() bool {
	dir, err := os.MkdirTemp("", "vp-alone")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.Marshal(x)
	file := filepath.Join(dir, "tape.json")
	if err := os.WriteFile(file, b, 0o644); err != nil {
		panic(err)
	}
	cmd := exec.Command(os.Args[0], "-test.run", "^TestAlone$", "-test.timeout", "60s")
	cmd.Env = append(os.Environ(), "VP_ALONE="+file, "VP_OUT=")
	return cmd.Run() == nil
}

// TestAlone plays one tape again and again: VP_ALONE.
func TestAlone(t *testing.T) {
	file := os.Getenv("VP_ALONE")
	if file == "" {
		t.Skip("VP_ALONE not set")
	}
	b, err := os.ReadFile(file)
	if err != nil {
		t.Fatal(err)
	}
	var x tape
	if err := json.Unmarshal(b, &x); err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 40; i++ {
		if err := x.play(&Ctx{labels: map[string]struct{}{}}); err != nil {
			t.Fatal(err)
		}
	}
}

var _ = Register("C24",
	"two to four instances, each living through a whole case of another property's check (authorizers, managers of both packages, role graphs, stores, lists), most of them with the same ids but another configuration, in parallel or taking turns question by question; oracle: each is judged by that property's own oracle, and a wrong answer counts if the same life is judged right in a fresh process, alone; non-trivial: two instances of the same package with a non-trivial life each",
	1, genInst, func(c instCase, ctx *Ctx) error {
		n := len(c.Tapes)
		errs := make([]error, n)
		ctxs := make([]*Ctx, n)
		for i := range ctxs {
			ctxs[i] = &Ctx{T: ctx.T, labels: map[string]struct{}{}, start: ctx.start}
		}
		if len(c.Turns) == 0 {
			ctx.Label("at the same time")
			var wg sync.WaitGroup
			for i := range c.Tapes {
				wg.Add(1)
				go func() {
					defer wg.Done()
					errs[i] = c.Tapes[i].play(ctxs[i])
				}()
			}
			wg.Wait()
		} else {
			ctx.Label("in turns")
			turn := make([]chan struct{}, n)
			back := make(chan bool)
			alive := make([]bool, n)
			for i := range c.Tapes {
				turn[i] = make(chan struct{})
				alive[i] = true
				ctxs[i].yield = func() {
					back <- true
					<-turn[i]
				}
				go func() {
					<-turn[i]
					errs[i] = c.Tapes[i].play(ctxs[i])
					back <- false
				}()
			}
			for left, k := n, 0; left > 0; k++ {
				i := ((c.Turns[k%len(c.Turns)]+k/len(c.Turns))%n + n) % n
				for !alive[i] {
					i = (i + 1) % n
				}
				turn[i] <- struct{}{}
				if !<-back {
					alive[i] = false
					left--
				}
			}
		}
		rich := map[string]int{}
		for i, x := range c.Tapes {
			ctx.Queries += ctxs[i].Queries
			ctx.Label("%s", x.Prop)
			if ctxs[i].nontrivial {
				rich[x.Prop]++
				if rich[x.Prop] > 1 {
					ctx.NonTrivial()
				}
			}
		}
		for i, x := range c.Tapes {
			if errs[i] == nil {
				continue
			}
			if aloneWrong.Load() > 100 || !x.rightAlone() {
				aloneWrong.Add(1)
				ctx.Label("wrong on its own as well (not this property's business)")
				continue
			}
			return fmt.Errorf("instance %d (a life of %s), among others: %w", i, x.Prop, errs[i])
		}
		return nil
	})

// ---------------------------------------------------------------- C24: and their audit logs

type logsCase struct {
	Lives []v2Case
	Log   []bool // which of them has a log
	Turns []int
}

func genLogs(t *rapid.T) logsCase {
	g := G{t}
	var c logsCase
	for k := g.Int(2, 4); k > 0; k-- {
		if n := len(c.Lives); n > 0 && g.P(50) {
			c.Lives = append(c.Lives, c.Lives[g.Int(0, n-1)])
		} else {
			c.Lives = append(c.Lives, genV2(10)(t))
		}
		c.Log = append(c.Log, g.P(60))
	}
	for k := g.Int(1, 12); k > 0; k-- {
		c.Turns = append(c.Turns, g.Int(0, len(c.Lives)-1))
	}
	return c
}

var _ = Register("C24",
	"two to four authorizers with lives as in C02, some with an audit log of their own and some without, each made when it is first its turn; oracle: a step of one leaves no record in the log of another, and a question leaves one with the outcome in its own; non-trivial: questions to authorizers with and without a log",
	1, genLogs, func(c logsCase, ctx *Ctx) error {
		n := len(c.Lives)
		if n == 0 || len(c.Log) != n || len(c.Turns) == 0 {
			return nil
		}
		ws, hs, at := make([]*v2World, n), make([]*recHandler, n), make([]int, n)
		asked := map[bool]int{}
		step := func(i int) (bool, error) {
			if ws[i] == nil {
				hs[i] = &recHandler{}
				if c.Log[i] {
					ws[i] = newV2World(&c.Lives[i], slog.New(hs[i]))
				} else {
					ws[i] = newV2World(&c.Lives[i])
				}
				return true, nil
			}
			ops, probes := c.Lives[i].Ops, c.Lives[i].Probes
			k := at[i]
			at[i]++
			if k >= len(ops)+len(probes) {
				return false, nil
			}
			var q *v2Req
			if k >= len(ops) {
				q = &probes[k-len(ops)]
			} else if ops[k].K == "ask" {
				if q = ops[k].R; q == nil {
					return true, nil
				}
			} else {
				_ = ws[i].apply(ops[k])
				return true, nil
			}
			ctx.Queries++
			asked[c.Log[i]]++
			got := ws[i].real.ask(*q)
			if !c.Log[i] {
				return true, nil
			}
			for _, r := range hs[i].recs {
				if o, _ := recordText(r); o != "" {
					if (o == "granted") != got {
						return true, fmt.Errorf("authorizer %d answered %s with %v and its log says %s", i, js(q), got, o)
					}
					return true, nil
				}
			}
			return true, fmt.Errorf("authorizer %d answered %s and its log says nothing", i, js(q))
		}
		done := make([]bool, n)
		for left, k := n, 0; left > 0; k++ {
			i := ((c.Turns[k%len(c.Turns)]+k/len(c.Turns))%n + n) % n
			for done[i] {
				i = (i + 1) % n
			}
			for _, h := range hs {
				if h != nil {
					h.recs = nil
				}
			}
			more, err := step(i)
			if err != nil {
				return err
			}
			for j, h := range hs {
				if h != nil && j != i && len(h.recs) > 0 {
					_, f := recordText(h.recs[0])
					return fmt.Errorf("a step of authorizer %d (with a log: %v) left %q %s in the log of authorizer %d (with a log: %v)", i, c.Log[i], h.recs[0].Message, f, j, c.Log[j])
				}
			}
			if !more {
				done[i] = true
				left--
			}
		}
		ctx.Label("with a log %v, without %v", asked[true] > 0, asked[false] > 0)
		if asked[true] > 0 && asked[false] > 0 {
			ctx.NonTrivial()
		}
		return nil
	})
