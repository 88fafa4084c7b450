package simrt

// RNG is a splitmix64 generator.
type RNG struct{ s uint64 }

// NewRNG seeds a generator.
func NewRNG(seed uint64) *RNG { return &RNG{seed} }

// U64 returns 64 random bits.
func (r *RNG) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	z = (z ^ z>>27) * 0x94d049bb133111eb
	return z ^ z>>31
}

// N returns a number in [0,n).
func (r *RNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() >> 1 % uint64(n))
}

// P returns true with probability 1/1000*pm.
func (r *RNG) P(pm int) bool { return r.N(1000) < pm }

// Pick returns one of the values.
func (r *RNG) Pick(v ...int) int { return v[r.N(len(v))] }

// Policy is a seeded scheduling policy.
type Policy struct {
	Kind      string
	Mean      int // mean number of steps between preemptions at memory accesses, 0: never
	SyncPM    int // per mille probability of a switch at synchronization
	StallPM   int // per mille probability that the preempted task is stalled
	StallSync int // the same at synchronization points
	StallLen  int
	BornPM    int // per mille probability that a new task starts late
	Quantum   int
	Round     bool     // meet: all perform one operation before anyone performs the next
	JumpPM    int      // per mille probability of a clock jump at synchronization points
	Changes   []uint64 // pct
	r         *RNG
	buf, abuf []*Task
	low       uint64
	rr        int
	granted   *Task // who is caught up
	grantEnd  uint64
	grants    int
}

// NewPolicy derives a policy from a seed. size is the expected number of steps.
func NewPolicy(seed uint64, size int) *Policy {
	r := NewRNG(seed)
	p := &Policy{r: r}
	switch k := r.N(100); {
	case k < 28:
		p.Kind = "random"
		p.Mean = r.Pick(2, 5, 20, 60, 200, 1000, 5000)
		p.SyncPM = r.Pick(50, 300, 500, 900)
	case k < 40:
		p.Kind = "pct"
		for d := r.N(5); d >= 0; d-- {
			p.Changes = append(p.Changes, uint64(1+r.N(size)))
		}
		sortU(p.Changes)
	case k < 52:
		p.Kind = "sync"
		p.SyncPM = r.Pick(200, 500, 800)
	case k < 61:
		p.Kind = "childfirst"
		p.SyncPM = r.Pick(0, 20, 100)
	case k < 69:
		p.Kind = "parentfirst"
		p.SyncPM = r.Pick(0, 20, 100)
	case k < 78:
		p.Kind = "rr"
		p.Quantum = r.Pick(1, 2, 3, 7, 50)
	case k < 88:
		p.Kind = "meet"
		p.Round = r.P(500)
		p.SyncPM = r.Pick(0, 0, 30, 200)
	default:
		p.Kind = "random"
		p.Mean = r.Pick(20, 200, 2000)
		p.SyncPM = r.Pick(300, 700)
		p.StallPM = r.Pick(0, 100, 500)
		p.StallSync = r.Pick(50, 200, 500)
		p.StallLen = r.Pick(100, 1000, 10000, 1000000)
		p.Kind = "stall"
	}
	if r.P(300) {
		p.BornPM = r.Pick(200, 500, 900)
		p.StallLen = r.Pick(50, 500, 5000, 1000000)
	}
	p.JumpPM = r.Pick(0, 2, 20, 200)
	return p
}

// jump draws how far the clock jumps now, mostly 0.
func (p *Policy) jump() uint64 {
	if p.JumpPM == 0 || !p.r.P(p.JumpPM) {
		return 0
	}
	return []uint64{1e3, 1e6, 1e8, 1e10}[p.r.N(4)]
}

// Named returns a fixed policy: "child" runs new goroutines at once, "parent" lets
// the starter run on as long as it can, "fair" gives all runnable tasks the same share, "breadth"
// runs those first that are fewest starts away from a client, while clients pause for some time.
func Named(kind string, seed uint64) *Policy {
	p := &Policy{Kind: kind, r: NewRNG(seed)}
	if kind == "fair" {
		p.Mean = p.r.Pick(5, 20, 60)
		p.SyncPM = 500
	}
	if kind == "breadth" {
		p.Mean = 200
		from := uint64(p.r.N(200000))
		p.Changes = []uint64{from, from + uint64(p.r.N(1200000))}
	}
	return p
}

func sortU(a []uint64) {
	for i := 1; i < len(a); i++ {
		for k := i; k > 0 && a[k] < a[k-1]; k-- {
			a[k], a[k-1] = a[k-1], a[k]
		}
	}
}

func (p *Policy) gap() uint64 {
	switch {
	case p.Kind == "rr":
		return uint64(p.Quantum)
	case p.Mean > 0:
		return uint64(1 + p.r.N(2*p.Mean-1))
	}
	return 1 << 62
}

func (p *Policy) first(s *Sim) uint64 {
	if p.Kind == "pct" {
		if len(p.Changes) > 0 {
			return p.Changes[0]
		}
		return 1 << 62
	}
	return s.step + p.gap()
}

func (p *Policy) onSpawn(s *Sim, t *Task) {
	p.low = 1 << 40
	t.waits = s.step
	t.prio = 1<<41 + p.r.U64()>>24
	if !s.replaying && len(s.tasks) > 1 && p.BornPM > 0 && p.r.P(p.BornPM) {
		t.stallUntil = s.step + uint64(1+p.r.N(p.StallLen))
		s.St.SpawnDelays++
	}
}

const starve = 300000 // fairness: nobody runnable waits longer than this,
const grant = 5000    // and then may go on for so long, more every time

// pick chooses among runnable tasks. cur==nil: the current task cannot go on.
func (p *Policy) pick(s *Sim, cur *Task, sync bool) *Task {
	all := s.runnable(p.buf[:0])
	p.buf = all
	if len(all) == 1 && cur != nil {
		if !sync {
			s.polNext = s.step + p.gap()
			p.skipChanges(s)
		}
		return cur
	}
	// stall faults
	if cur != nil {
		pm := p.StallPM
		if sync {
			pm = p.StallSync
		}
		if pm > 0 && p.r.P(pm) {
			cur.stallUntil = s.step + uint64(1+p.r.N(p.StallLen))
			s.St.Stalls++
		}
	}
	act := p.abuf[:0]
	var forced *Task
	limit := uint64(starve)
	if p.Kind == "child" || p.Kind == "breadth" { // helpers really end first
		limit *= 30
	}
	for _, t := range all {
		if t.stallUntil <= s.step {
			act = append(act, t)
		}
		if s.step-t.waits > limit && t != cur && (forced == nil || t.waits < forced.waits) {
			forced = t
		}
	}
	p.abuf = act
	if !sync {
		s.polNext = s.step + p.gap()
	}
	if p.granted != nil {
		if p.granted == cur && s.step < p.grantEnd && cur.stallUntil <= s.step {
			return cur
		}
		p.granted = nil
	}
	if forced != nil {
		forced.waits, forced.stallUntil = s.step, 0
		p.granted, p.grants = forced, min(p.grants+1, 8)
		p.grantEnd = s.step + grant<<p.grants
		return forced
	}
	if len(act) == 0 {
		act = all
		// everyone is stalled: the one due first goes on
		best := all[0]
		for _, t := range all {
			if t.stallUntil < best.stallUntil {
				best = t
			}
		}
		best.stallUntil = 0
		return best
	}
	curOK := cur != nil && cur.stallUntil <= s.step
	switch p.Kind {
	case "pct":
		if !sync && cur != nil && len(p.Changes) > 0 && p.Changes[0] <= s.step {
			p.low--
			cur.prio = p.low
		}
		p.skipChanges(s)
		best := act[0]
		for _, t := range act {
			if t.prio > best.prio {
				best = t
			}
		}
		return best
	case "childfirst", "child":
		if sync && p.SyncPM > 0 && p.r.P(p.SyncPM) {
			return act[p.r.N(len(act))]
		}
		best := act[0]
		for _, t := range act { // youngest first
			if t.ID > best.ID {
				best = t
			}
		}
		return best
	case "parentfirst", "parent":
		if sync && p.SyncPM > 0 && p.r.P(p.SyncPM) {
			return act[p.r.N(len(act))]
		}
		if curOK {
			return cur
		}
		return act[0]
	case "breadth":
		pause := p.Changes[0] < s.step && s.step < p.Changes[1]
		var best *Task
		for _, t := range act {
			if t.gen == 0 && pause {
				continue
			}
			if best == nil || t.gen < best.gen {
				best = t
			}
		}
		if best == nil {
			best = act[0]
		}
		return best
	case "meet": // everyone goes on to the next synchronization, then one of them performs it
		if sync && cur != nil {
			cur.met = s.step
		}
		if p.SyncPM > 0 && p.r.P(p.SyncPM) {
			best := act[p.r.N(len(act))]
			best.met = 0
			return best
		}
		best := act[0]
		k := 0
		for _, t := range act {
			switch {
			case t.met == 0: // still on its way
				if best.met != 0 || t == cur {
					best = t
				}
			case best.met == 0:
			case p.Round && t.met < best.met:
				best = t
			case !p.Round:
				if k++; p.r.N(k) == 0 {
					best = t
				}
			}
		}
		best.met = 0
		return best
	case "rr":
		if sync && curOK {
			return cur
		}
		p.rr++
		best := act[0]
		for _, t := range act {
			if t != cur && t.lastRun <= best.lastRun {
				best = t
			}
		}
		if best == cur {
			best = act[p.rr%len(act)]
		}
		return best
	}
	if sync && curOK && !p.r.P(p.SyncPM) {
		return cur
	}
	return act[p.r.N(len(act))]
}

func (p *Policy) skipChanges(s *Sim) {
	if p.Kind != "pct" {
		return
	}
	for len(p.Changes) > 0 && p.Changes[0] <= s.step {
		p.Changes = p.Changes[1:]
	}
	s.polNext = 1 << 62
	if len(p.Changes) > 0 {
		s.polNext = p.Changes[0]
	}
}
