package harness

import (
	"fmt"
	"sync"
	"sync/atomic"

	"github.com/oarkflow/permission/utils"
	"pgregory.net/rapid"
)

// ---------------------------------------------------------------- C25: pools

// poolOp: thread W takes from pool P ("get"), puts back its H-th loan after
// growing it to N elements ("put"), or keeps it and works on it ("work").
type poolOp struct {
	K       string
	P, H, N int
}

type poolCase struct {
	Sizes   []int // of the slice pools
	Threads [][]poolOp
}

func genPool(t *rapid.T) poolCase {
	g := G{t}
	var c poolCase
	for k := g.Int(1, 3); k > 0; k-- {
		c.Sizes = append(c.Sizes, Pick(g, []int{0, 0, 1, 2, 4, 16, 100, 100, 128, 300}))
	}
	threads := 1
	if g.P(50) {
		threads = g.Int(2, 5)
	}
	for w := 0; w < threads; w++ {
		var ops []poolOp
		out := 0
		n := g.Int(2, 25)
		if g.P(4) {
			n = g.Int(60, 200)
		}
		for i := 0; i < n; i++ {
			o := poolOp{P: g.Int(0, 2*len(c.Sizes)-1)}
			switch x := g.Int(0, 99); {
			case out == 0 || x < 45:
				o.K = "get"
				out++
			case x < 80:
				o.K, o.H, o.N = "put", g.Int(0, out-1), Pick(g, []int{0, 1, 2, 3, 5, 17, 40, 130, 300})
				out--
			default:
				o.K, o.H, o.N = "work", g.Int(0, out-1), Pick(g, []int{0, 1, 2, 3, 5, 8, 13, 20, 120, 300})
			}
			ops = append(ops, o)
		}
		c.Threads = append(c.Threads, ops)
	}
	return c
}

type lent struct {
	made   int64 // serial number, unique in its pool
	holder atomic.Int64
	mark   int64
	words  map[string]int64
}

type loan struct {
	pool  int
	obj   *lent
	slice []int64
	want  []int64
	mark  int64
}

var _ = Register("C25",
	"programs over slice pools (of sizes 0 to 100) and object pools: taking, writing, growing, putting back, by one thread or by up to five at once; oracle: what is taken is empty or new or was put back by its last holder unchanged, and reads back as its holder wrote it however the others use the pool; non-trivial: something put back is taken again, or several threads",
	2, genPool, func(c poolCase, ctx *Ctx) error {
		np := len(c.Sizes)
		if np == 0 {
			return nil
		}
		sp := make([]*utils.SlicePool[int64], np)
		op := make([]utils.Pool[*lent], np)
		var made atomic.Int64
		for i, s := range c.Sizes {
			sp[i] = utils.NewSlicePool[int64](max(0, s))
			base := int64(i) << 40
			op[i] = utils.New(func() *lent {
				return &lent{made: base | made.Add(1), words: map[string]int64{}}
			})
		}
		var serial atomic.Int64
		var again atomic.Bool
		check := func(l *loan) error {
			if l.obj == nil {
				if len(l.slice) != len(l.want) {
					return fmt.Errorf("a slice grown to %d elements has %d", len(l.want), len(l.slice))
				}
				for i, x := range l.slice {
					if x != l.want[i] {
						return fmt.Errorf("element %d of a slice taken from pool %d reads %d, its holder wrote %d", i, l.pool, x, l.want[i])
					}
				}
				return nil
			}
			if l.obj.mark != l.mark || l.obj.words["mark"] != l.mark {
				return fmt.Errorf("an object taken from pool %d reads %d and %d, its holder wrote %d", l.pool, l.obj.mark, l.obj.words["mark"], l.mark)
			}
			return nil
		}
		work := func(l *loan, n int) {
			if l.obj == nil {
				for i := 0; i < n; i++ {
					x := serial.Add(1)
					l.slice = append(l.slice, x)
					l.want = append(l.want, x)
				}
				return
			}
			l.mark = serial.Add(1)
			l.obj.mark = l.mark
			l.obj.words["mark"] = l.mark
		}
		run := func(w int, ops []poolOp) error {
			var held []*loan
			for k, o := range ops {
				at := fmt.Sprintf("thread %d, step %d (%s)", w, k, o.K)
				switch o.K {
				case "get":
					p := ((o.P % (2 * np)) + 2*np) % (2 * np)
					l := &loan{pool: p}
					if p < np {
						l.slice = sp[p].Get()
						if len(l.slice) != 0 {
							return fmt.Errorf("%s: a slice of the pool has %d elements", at, len(l.slice))
						}
						if full := l.slice[:cap(l.slice)]; len(full) > 0 && full[0] != 0 {
							again.Store(true)
						}
					} else {
						l.obj = op[p-np].Get()
						if l.obj == nil || l.obj.made>>40 != int64(p-np) {
							return fmt.Errorf("%s: the pool hands out %+v, which is not its own", at, l.obj)
						}
						if h := l.obj.holder.Swap(int64(w + 1)); h != 0 {
							return fmt.Errorf("%s: the pool hands out object %d, which thread %d still holds", at, l.obj.made, h-1)
						}
						l.mark = l.obj.mark
						if l.obj.words["mark"] != l.mark {
							return fmt.Errorf("%s: an object put back with %d reads %d", at, l.mark, l.obj.words["mark"])
						}
						if l.mark != 0 {
							again.Store(true)
						}
					}
					work(l, 1)
					held = append(held, l)
				case "put", "work":
					if len(held) == 0 {
						continue
					}
					h := ((o.H % len(held)) + len(held)) % len(held)
					l := held[h]
					if err := check(l); err != nil {
						return fmt.Errorf("%s: %w", at, err)
					}
					work(l, min(max(0, o.N), 500))
					if err := check(l); err != nil {
						return fmt.Errorf("%s: %w", at, err)
					}
					if o.K == "work" {
						continue
					}
					held = append(held[:h:h], held[h+1:]...)
					if l.obj == nil {
						sp[l.pool].Put(l.slice)
					} else {
						l.obj.holder.Store(0)
						op[l.pool-np].Put(l.obj)
					}
				}
				ctxQ(ctx, w)
			}
			for _, l := range held {
				if err := check(l); err != nil {
					return fmt.Errorf("thread %d, at the end: %w", w, err)
				}
			}
			return nil
		}
		errs := make([]error, len(c.Threads))
		if len(c.Threads) == 1 {
			errs[0] = run(0, c.Threads[0])
		} else {
			var wg sync.WaitGroup
			start := make(chan struct{})
			for w := range c.Threads {
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if r := recover(); r != nil {
							errs[w] = fmt.Errorf("panic: %v", r)
						}
					}()
					<-start
					for i := 0; i < 4 && errs[w] == nil; i++ {
						errs[w] = run(w, c.Threads[w])
					}
				}()
			}
			close(start)
			wg.Wait()
			ctx.Label("several threads")
			ctx.NonTrivial()
		}
		if again.Load() {
			ctx.Label("taken again")
			ctx.NonTrivial()
		}
		for _, err := range errs {
			if err != nil {
				return err
			}
		}
		return nil
	})

// ctxQ counts a comparison of the first thread (Ctx is not shared).
func ctxQ(ctx *Ctx, w int) {
	if w == 0 {
		ctx.Queries++
	}
}
