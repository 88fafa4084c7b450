package main

import (
	"verifrt/simrt"
)

// adversary is a comparator that decides the order of the elements as late as it can,
// so that pivots turn out bad. Its answers agree with one strict total order.
type adversary interface {
	ask(x, y uint64) bool
	less(x, y uint64) bool // after the sort
}

func newAdversary(op *Op) adversary {
	if op.Ord == "peel" {
		return &peel{cap: op.Peel, st: map[uint64]*peelEl{}}
	}
	return &mcIlroy{val: map[uint64]int{}, cand: ^uint64(0)}
}

// mcIlroy is the classic one: pivots are among the least elements.
type mcIlroy struct {
	val   map[uint64]int
	solid int
	cand  uint64
}

const gas = 1 << 30

func (a *mcIlroy) v(x uint64) int {
	if v, ok := a.val[x]; ok {
		return v
	}
	return gas
}

func (a *mcIlroy) less(x, y uint64) bool { return a.v(x) < a.v(y) }

func (a *mcIlroy) ask(x, y uint64) bool {
	if x == y {
		return false
	}
	vx, vy := a.v(x), a.v(y)
	if vx == gas && vy == gas {
		if x == a.cand {
			a.val[x] = a.solid
		} else {
			a.val[y] = a.solid
		}
		a.solid++
	}
	vx, vy = a.v(x), a.v(y)
	if vx == gas {
		a.cand = x
	} else if vy == gas {
		a.cand = y
	}
	return vx < vy
}

// peel lets every partition split off only about cap elements: every level of it has
// room for cap low elements, the elements seen first are low and high in turns.
type peel struct {
	cap int
	st  map[uint64]*peelEl
	lv  []peelLevel
	seq int
}

type peelLevel struct {
	low  int
	turn bool
}

// peelEl is low in its level, or not decided there yet.
type peelEl struct {
	level, seq int
	low        bool
}

func (a *peel) el(x uint64) *peelEl {
	e := a.st[x]
	if e == nil {
		e = &peelEl{}
		a.st[x] = e
	}
	return e
}

// decide places e in its level or beyond.
func (a *peel) decide(e *peelEl) {
	for len(a.lv) <= e.level {
		a.lv = append(a.lv, peelLevel{})
	}
	l := &a.lv[e.level]
	l.turn = !l.turn
	if l.low < a.cap && (l.turn || l.low > 30) {
		a.seq++
		l.low++
		e.low, e.seq = true, a.seq
		return
	}
	e.level++
}

func (a *peel) ask(x, y uint64) bool {
	if x == y {
		return false
	}
	p, q := a.el(x), a.el(y)
	for !(p.low && q.low) && !(p.low && q.level > p.level) && !(q.low && p.level > q.level) {
		switch {
		case p.low || !q.low && q.level < p.level:
			a.decide(q)
		default:
			a.decide(p)
		}
	}
	return a.order(p, q)
}

func (a *peel) order(p, q *peelEl) bool {
	if p.low && q.low && p.level == q.level {
		return p.seq > q.seq // later ones are less: the samples end up at the top
	}
	if p.low != q.low && p.level == q.level {
		return p.low // the undecided one goes beyond, it can not be low any more
	}
	return p.level < q.level
}

// less is asked about neighbours after the sort, which have been compared.
func (a *peel) less(x, y uint64) bool {
	return x != y && a.order(a.el(x), a.el(y))
}

// killers are collections made for the code at hand: sorting them, every partition
// splits off about k elements only. Wherever equidistant elements are read, as for
// choosing a pivot, most of these are made the least of what is left. What was decided
// for earlier partitions is not affected by that.
func killer(typ string, n, k int, lim [4]int, seed uint64) []uint64 {
	r := simrt.NewRNG(seed)
	rank := make([]int, n)
	for i := range rank {
		rank[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.N(i + 1)
		rank[i], rank[j] = rank[j], rank[i]
	}
	vals := func() []uint64 {
		v := make([]uint64, n)
		for i, x := range rank {
			v[i] = rankValue(typ, x)
		}
		return v
	}
	for next := 0; next+k+30 < n; next += k {
		at := killerSamples(typ, vals(), lim, rank, next)
		if len(at) == 0 {
			break
		}
		m := len(at)/2 + 1
		for i := range at { // which of them is left to chance
			j := i + r.N(len(at)-i)
			at[i], at[j] = at[j], at[i]
		}
		isLow := map[int]bool{}
		for _, o := range at[:m] {
			isLow[o] = true
		}
		isHigh := map[int]bool{}
		for _, o := range at[m:] {
			isHigh[o] = true
		}
		byRank := make([]int, n)
		for o, x := range rank {
			byRank[x] = o
		}
		var low, high []int // what is left, in order
		for _, o := range byRank[next:] {
			switch {
			case isLow[o]:
			case !isHigh[o] && len(low) < k-m:
				low = append(low, o)
			default:
				high = append(high, o)
			}
		}
		x := next
		for _, l := range [][]int{low, at[:m], high} {
			for _, o := range l {
				rank[o] = x
				x++
			}
		}
	}
	return vals()
}

// rankValue maps ranks to raw values of a type monotonically.
func rankValue(typ string, x int) uint64 {
	switch typ { // with room for a mean in between
	case "f32":
		return uint64(0x3f800000 + 16*x)
	case "f64", "nf64":
		return 0x3ff0000000000000 + 16*uint64(x)
	case "str", "byt":
		return 1<<62 + uint64(x)
	}
	return uint64(x) * 8
}

// killerSamples sorts the collection and returns which of the elements with ranks from
// next on are the first to be read equidistantly.
func killerSamples(typ string, vals []uint64, lim [4]int, rank []int, next int) []int {
	sc := &Scenario{Prop: "C16", Variant: "killer", Lim: lim, Gor: 1, NaN: 1, Cap: 1 << 40,
		Colls: []Coll{{Typ: typ, N: len(vals), Pat: "perm", Vals: vals}}, Clients: []Client{{Ops: []Op{{Do: (&gen{}).doFor(typ), Hi: len(vals)}}}}}
	var at, run []int
	last, step := -1, 0
	runScenarioWith(sc, nil, false, func(e *exec) {
		c := e.colls[0]
		of := map[w3]int{}
		for i, w := range c.orig {
			of[w] = i
		}
		e.s.OnTouch = func(t *simrt.Task, i int, write bool) {
			o, ok := of[c.raw(i)]
			fresh := ok && rank[o] >= next && !write
			if fresh && len(run) > 0 && i-last > 1 && (len(run) == 1 || i-last == step) {
				step = i - last
				last = i
				run = append(run, o)
				return
			}
			if len(run) >= 3 {
				at = run
				e.s.Stop()
			}
			switch {
			case !fresh:
				run = run[:0]
			case len(run) > 0 && i-last > 1: // perhaps the previous one was the first
				run = append(run[:0], run[len(run)-1], o)
				step = i - last
			default:
				run = append(run[:0], o)
			}
			last = i
		}
	})
	return at
}
