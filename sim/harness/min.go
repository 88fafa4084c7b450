package main

import (
	"encoding/json"
	"time"

	"verifrt/simrt"
)

func clone(sc *Scenario) *Scenario {
	b, _ := json.Marshal(sc)
	n := new(Scenario)
	json.Unmarshal(b, n)
	return n
}

type minimiser struct {
	class    string
	deadline time.Time
	best     *Scenario
	out      *outcome
	tries    int
}

func (m *minimiser) has(o *outcome) bool {
	for _, v := range o.res.Viol {
		if v.Class == m.class {
			return true
		}
	}
	return false
}

func (m *minimiser) over() bool { return time.Now().After(m.deadline) }

// try runs a smaller scenario under its own and a few other schedules.
func (m *minimiser) try(sc *Scenario) bool {
	for k := 0; k < 6 && !m.over(); k++ {
		if k > 0 {
			sc.Sched = mixSeed(m.best.Sched, uint64(k))
		}
		m.tries++
		o := runScenario(sc, nil, false)
		gc()
		if m.has(o) {
			m.best, m.out = clone(sc), o
			return true
		}
	}
	return false
}

// minimise shrinks the scenario first, then the list of scheduling decisions.
func minimise(sc *Scenario, o *outcome, v simrt.Violation, seed uint64, d time.Duration) *Replay {
	m := &minimiser{class: v.Class, deadline: time.Now().Add(d / 2), best: clone(sc), out: o}
	// the use of quota is certain only for the scenario and kind of schedule that were drawn
	exact := v.Class == "unused"
	for again := !exact; again && !m.over(); {
		again = false
		// fewer clients
		for i := len(m.best.Clients) - 1; i >= 0 && len(m.best.Clients) > 1; i-- {
			c := clone(m.best)
			c.Clients = append(c.Clients[:i:i], c.Clients[i+1:]...)
			again = m.try(c) || again
		}
		// fewer operations, many at once first
		for i := range m.best.Clients {
			for size := len(m.best.Clients[i].Ops) / 2; size > 2; size /= 2 {
				for at := 0; at+size < len(m.best.Clients[i].Ops) && !m.over(); {
					c := clone(m.best)
					ops := c.Clients[i].Ops
					c.Clients[i].Ops = append(ops[:at:at], ops[at+size:]...)
					if m.try(c) {
						again = true
					} else {
						at += size
					}
				}
			}
		}
		for i := range m.best.Clients {
			for k := len(m.best.Clients[i].Ops) - 1; k >= 0 && len(m.best.Clients[i].Ops) > 1; k-- {
				c := clone(m.best)
				ops := c.Clients[i].Ops
				c.Clients[i].Ops = append(ops[:k:k], ops[k+1:]...)
				again = m.try(c) || again
			}
		}
		// fewer events
		for i := len(m.best.Oper) - 1; i >= 0; i-- {
			c := clone(m.best)
			c.Oper = append(c.Oper[:i:i], c.Oper[i+1:]...)
			again = m.try(c) || again
		}
		for i := len(m.best.GC) - 1; i >= 0; i-- {
			c := clone(m.best)
			c.GC = append(c.GC[:i:i], c.GC[i+1:]...)
			again = m.try(c) || again
		}
		// simpler operations
		for i := range m.best.Clients {
			if m.best.Clients[i].Delay > 0 {
				c := clone(m.best)
				c.Clients[i].Delay = 0
				m.try(c)
			}
			for k := range m.best.Clients[i].Ops {
				op := m.best.Clients[i].Ops[k]
				if op.NestEach > 0 {
					c := clone(m.best)
					o := &c.Clients[i].Ops[k]
					o.NestEach, o.NestOp, o.NestColl, o.NestMax = 0, nil, nil, 0
					again = m.try(c) || again
				}
				if op.StallEach > 0 {
					c := clone(m.best)
					c.Clients[i].Ops[k].StallEach = 0
					again = m.try(c) || again
				}
				if op.Use {
					c := clone(m.best)
					c.Clients[i].Ops[k].Use = false
					again = m.try(c) || again
				}
				// shorter
				for _, f := range []int{2, 3, 4, 8, 16, -1} {
					o := m.best.Clients[i].Ops[k]
					n := o.Hi - o.Lo
					cut := n - 1
					if f > 0 {
						cut = n - n/f
						if f == 2 {
							cut = n / 2
						}
					}
					if cut >= n || cut < 0 {
						continue
					}
					c := clone(m.best)
					shrink(c, i, k, cut)
					again = m.try(c) || again
				}
			}
		}
		if m.best.Gor > 2 {
			c := clone(m.best)
			c.Gor = 2
			if m.best.Gor > 4 {
				c.Gor = 3
			}
			again = m.try(c) || again
		}
	}
	// one schedule, as a list of decisions
	r := &Replay{Property: sc.Prop, Class: m.class, Variant: sc.Variant, Seed: seed, Scenario: m.best}
	m.deadline = time.Now().Add(d / 2)
	ch := m.out.res.Trace
	test := func(c []simrt.Choice) *outcome {
		o := runScenario(m.best, c, true)
		gc()
		if m.has(o) {
			return o
		}
		return nil
	}
	fin := test(ch)
	if fin == nil && !sc.OpAlloc {
		// cannot happen unless replay is broken: say so loudly
		fatal("replay of run %d does not reproduce %s", sc.Run, m.class)
	}
	if fin == nil { // real memory differs a little when the scheduler itself runs or not
		r.Crash, r.Scenario = true, clone(sc)
		r.Steps, r.Log, r.Message, r.Step = o.res.Steps, logOf(o.res), v.Msg, v.Step
		r.Choices, r.Found = []simrt.Choice{}, "run "+itoa(sc.Run)+" of "+sc.Variant
		return r
	}
	if !exact {
		ch, fin = m.ddmin(ch, fin, test)
	}
	r.Choices = ch
	for _, v := range fin.res.Viol {
		if v.Class == m.class {
			r.Message, r.Step = v.Msg, v.Step
			break
		}
	}
	r.Steps, r.Log = fin.res.Steps, logOf(fin.res)
	r.Found = "run " + itoa(sc.Run) + " of " + sc.Variant
	if r.Choices == nil {
		r.Choices = []simrt.Choice{}
	}
	return r
}

func (m *minimiser) ddmin(ch []simrt.Choice, fin *outcome, test func([]simrt.Choice) *outcome) ([]simrt.Choice, *outcome) {
	// a prefix often suffices
	for k := 0; k < len(ch) && !m.over(); k = k*2 + 1 {
		if o := test(ch[:k:k]); o != nil {
			ch, fin = ch[:k:k], o
			break
		}
	}
	for parts := 2; len(ch) > 0 && !m.over(); {
		size := (len(ch) + parts - 1) / parts
		removed := false
		for at := 0; at < len(ch) && !m.over(); at += size {
			end := at + size
			if end > len(ch) {
				end = len(ch)
			}
			c := append(append([]simrt.Choice(nil), ch[:at]...), ch[end:]...)
			if o := test(c); o != nil {
				ch, fin, removed = c, o, true
				break
			}
		}
		if removed {
			if parts > 2 {
				parts--
			}
			continue
		}
		if size <= 1 {
			break
		}
		parts *= 2
		if parts > len(ch) {
			parts = len(ch)
		}
	}
	return ch, fin
}

// shrink cuts operation k of client i to n elements; other ranges of the collection stay.
func shrink(sc *Scenario, i, k, n int) {
	op := &sc.Clients[i].Ops[k]
	shared := false
	old := op.Hi - op.Lo
	_ = old
	for a := range sc.Clients {
		for b := range sc.Clients[a].Ops {
			o := &sc.Clients[a].Ops[b]
			if (a != i || b != k) && o.C == op.C && o.Do != "sleep" && o.Do != "misuse" && o.Do != "vsearch" && o.Do != "nothing" {
				if o.Lo == op.Lo && o.Hi == op.Hi {
					o.Hi = o.Lo + n
					if o.K > n {
						o.K = n
					}
					continue
				}
				shared = true
			}
		}
	}
	op.Hi = op.Lo + n
	if op.K > n {
		op.K = n
	}
	if !shared {
		c := &sc.Colls[op.C]
		if c.Vals == nil {
			c.N = op.Hi
		}
	}
}

func itoa(x uint64) string {
	b, _ := json.Marshal(x)
	return string(b)
}
