package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verifrt/satomic"
	"verifrt/simrt"
)

// Op is one operation of a client.
type Op struct {
	Do  string `json:"do"` // slice len lsw isslice islen islsw search sleep
	C   int    `json:"c"`
	Lo  int    `json:"lo"`
	Hi  int    `json:"hi"`
	Ord string `json:"ord,omitempty"` // comparator: asc desc mod eq adv

	PanicAt   uint64 `json:"panicAt,omitempty"`   // invocation, counted on the calling goroutine, that panics
	Judge     bool   `json:"judge,omitempty"`     // the use of quota is judged
	PanicKind int    `json:"panicKind,omitempty"` // kind of panic value
	PanicLate bool   `json:"panicLate,omitempty"` // after the exchange
	NestEach  uint64 `json:"nestEach,omitempty"`  // every so many invocations, the comparator sorts something else
	NestOp    *Op    `json:"nestOp,omitempty"`    // this
	NestColl  *Coll  `json:"nestColl,omitempty"`  // on a copy of this
	NestMax   int    `json:"nestMax,omitempty"`   // so many times
	StallEach uint64 `json:"stallEach,omitempty"` // every so many invocations, the comparator takes long
	StallLen  uint64 `json:"stallLen,omitempty"`
	StallMax  int    `json:"stallMax,omitempty"`
	Peel      int    `json:"peel,omitempty"` // for order "peel"
	K         int    `json:"k,omitempty"`    // search threshold
	Len       uint64 `json:"len,omitempty"`  // sleep
	Use       bool   `json:"use,omitempty"`  // the caller reads and rewrites the elements after the call

	Fn   string `json:"fn,omitempty"`   // misuse: the function called, K is the type of its argument
	N    int    `json:"n,omitempty"`    // its length
	Seed uint64 `json:"seed,omitempty"` // its content
}

// Client is a goroutine of the program that uses the library.
type Client struct {
	Delay uint64 `json:"delay,omitempty"`
	Ops   []Op   `json:"ops"`
}

// GorSet is a live change of MaxGor.
type GorSet struct {
	At  uint64 `json:"at"`
	Val uint64 `json:"val"`
}

// Collect is a garbage collection that starts at some time and proceeds piece by piece.
type Collect struct {
	At    uint64 `json:"at"`
	Ord   int    `json:"ord,omitempty"` // order of the pieces: 0 forward, 1 backward, 2 by Seed
	Piece int    `json:"piece"`         // slots
	Gap   uint64 `json:"gap"`           // time between pieces
	Seed  uint64 `json:"seed,omitempty"`
}

// Scenario is everything a run consists of except the schedule.
type Scenario struct {
	Prop    string    `json:"prop"`
	Variant string    `json:"variant"`
	Run     uint64    `json:"run"`
	Lim     [4]int    `json:"lim"`
	Gor     uint64    `json:"gor"`
	NaN     int       `json:"nan"`
	Sched   uint64    `json:"sched"`
	Pol     string    `json:"pol,omitempty"`
	Cap     uint64    `json:"cap"`
	Size    int       `json:"size"`
	Colls   []Coll    `json:"colls"`
	Clients []Client  `json:"clients"`
	Oper    []GorSet  `json:"oper,omitempty"`
	GC      []Collect `json:"gc,omitempty"`
	Expect  string    `json:"expect,omitempty"`  // what use of quota this scenario and schedule must lead to
	Boot    bool      `json:"boot,omitempty"`    // the parameters are those of a start, possibly inconsistent
	OpAlloc bool      `json:"opAlloc,omitempty"` // measure real allocation of the calls
}

type outcome struct {
	res   *simrt.Result
	calls []*simrt.Call
	gors  []gorEv
	st    runStats
	pol   string
	sites []uint64
}

type runStats struct {
	calls, sorts, queries, nested, panics, stalls, gorSets, helpers, chans int
	par                                                                    int // calls that used helpers
	maxPeak                                                                int
	elems                                                                  int
	maxDepth                                                               int
	misuses, boots, refused                                                int
	gcCycles, gcSlots                                                      int
}

type gorEv struct{ before, after, val uint64 }

// injected panics carry values of many kinds, among them an error, one of the runtime's
// errors, the nil interface and a value that cannot be compared.
type injected struct{ id int }

type injErr struct{ id int }

func (e *injErr) Error() string { return fmt.Sprintf("injected %d", e.id) }

type injList []int

func injectedValue(call *simrt.Call, kind int) any {
	switch kind {
	case 1:
		return &injErr{call.ID}
	case 2:
		return fmt.Sprintf("injected %d", call.ID)
	case 3:
		return fmt.Errorf("wrapped: %w", &injErr{call.ID})
	case 4:
		return injList{call.ID}
	case 5:
		return (*injErr)(nil)
	case 6:
		return call.ID
	}
	return injected{call.ID}
}

// injectPanic panics in the comparator of a call.
func injectPanic(call *simrt.Call, kind int) {
	call.PanicSent = true
	switch kind {
	case 7:
		var none []int
		call.PanicVal = fmt.Sprintf("runtime error: index out of range [%d] with length 0", call.ID)
		_ = none[call.ID]
	case 8:
		var m map[int]int
		call.PanicVal = "assignment to entry in nil map"
		m[call.ID] = 1
	case 9:
		call.PanicVal = ""
		panic(nil)
	}
	call.PanicVal = injectedValue(call, kind)
	panic(call.PanicVal)
}

// sameValue tells whether x is what injectPanic made the comparator panic with.
func sameValue(call *simrt.Call, kind int, x any) bool {
	if !call.PanicSent {
		return false
	}
	if kind == 9 {
		_, ok := x.(*runtime.PanicNilError)
		return ok
	}
	if kind >= 7 {
		r, ok := x.(runtime.Error)
		return ok && r.Error() == call.PanicVal.(string)
	}
	if l, ok := call.PanicVal.(injList); ok {
		k, ok := x.(injList)
		return ok && len(k) == 1 && &k[0] == &l[0]
	}
	return x == call.PanicVal
}

// exec is a run in progress.
type exec struct {
	sc       *Scenario
	s        *simrt.Sim
	colls    []*coll
	o        *outcome
	seq      int
	adv      map[*coll]adversary
	panicked bool
}

var sitesLoaded bool

func loadSites(dir string) {
	b, err := os.ReadFile(filepath.Join(dir, "sites.json"))
	if err != nil {
		fatal("%v", err)
	}
	var x struct{ Sites []string }
	if err := json.Unmarshal(b, &x); err != nil {
		fatal("%v", err)
	}
	simrt.Sites = x.Sites
}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "harness: "+f+"\n", a...)
	os.Exit(64)
}

func (e *exec) bad(class, f string, a ...any) { e.s.Report(class, fmt.Sprintf(f, a...)) }

func isSort(do string) bool { return do == "slice" || do == "len" || do == "lsw" }

// serialLimit is the documented length up to which no goroutine is created.
func (sc *Scenario) serialLimit(op *Op, typ string) int {
	if op.Do == "lsw" || op.Do == "slice" && (typ == "str" || typ == "byt") {
		return sc.Lim[3]
	}
	return sc.Lim[2]
}

// runScenario executes one simulation.
func runScenario(sc *Scenario, choices []simrt.Choice, replay bool) *outcome {
	return runScenarioWith(sc, choices, replay, nil)
}

// runScenarioWith lets prep have a look before the start.
func runScenarioWith(sc *Scenario, choices []simrt.Choice, replay bool, prep func(*exec)) *outcome {
	simrt.CPUs = [...]int{1, 2, 4, 8, 8, 16, 64, 256}[mixSeed(sc.Sched, 77)&7]
	sorty.SimReset__()
	up := true
	if sc.Boot {
		up = boot(sc)
	}
	setLimits(sc.Lim)
	sorty.MaxGor = sc.Gor
	sorty.NaNoption = sorty.FloatOption(sc.NaN)

	var pol *simrt.Policy
	if !replay {
		if sc.Pol != "" {
			pol = simrt.Named(sc.Pol, sc.Sched)
		} else {
			pol = simrt.NewPolicy(sc.Sched, sc.Size)
		}
	}
	s := simrt.New(pol, choices, replay, sc.Cap)
	s.RandSeed = sc.Sched
	e := &exec{sc: sc, s: s, o: &outcome{}, adv: map[*coll]adversary{}}
	for i := range sc.Colls {
		c := newColl(&sc.Colls[i])
		c.reg = s.AddRegion(fmt.Sprintf("%s#%d", c.d.Typ, i), c.base, c.esz, c.n)
		s.AddPayload(c.pay)
		e.colls = append(e.colls, c)
		if len(sc.GC) > 0 && refType[c.d.Typ] {
			s.Watch(c.reg)
		}
	}
	for ci := range sc.Clients {
		cl := &sc.Clients[ci]
		if !up {
			break
		}
		s.Client(fmt.Sprintf("client%d", ci), func() {
			if cl.Delay > 0 {
				simrt.SleepUntil(cl.Delay)
			}
			for oi := range cl.Ops {
				op := &cl.Ops[oi]
				if op.Do == "sleep" {
					simrt.SleepUntil(simrt.Now() + op.Len)
					continue
				}
				if op.Do == "misuse" {
					e.misuse(op)
					continue
				}
				if op.Do == "vsearch" {
					e.vsearch(op)
					continue
				}
				if op.Do == "nothing" {
					e.nothing(op)
					continue
				}
				e.do(op, e.colls[op.C], false)
			}
		})
	}
	e.o.gors = append(e.o.gors, gorEv{0, 0, sc.Gor})
	if len(sc.Oper) > 0 {
		s.Client("operator", func() {
			for _, g := range sc.Oper {
				simrt.SleepUntil(g.At)
				b := simrt.Steps()
				k := len(e.o.gors)
				e.o.gors = append(e.o.gors, gorEv{b, b, g.Val})
				satomic.StoreUint64(&sorty.MaxGor, g.Val)
				e.o.gors[k].after = simrt.Steps()
				e.o.st.gorSets++
			}
		})
	}
	if len(sc.GC) > 0 {
		s.Client("collector", func() {
			for _, c := range sc.GC {
				simrt.SleepUntil(c.At)
				s.Collect(c.Ord, c.Piece, c.Gap, c.Seed)
			}
		})
	}
	if prep != nil {
		prep(e)
	}
	r := s.Run()
	if prep != nil {
		return nil
	}
	if len(r.Viol) == 0 { // every client and the operator are done
		if want := e.o.gors[len(e.o.gors)-1].val; sorty.MaxGor != want {
			r.Add("setting", "MaxGor is %d after the last call, %d was stored last", sorty.MaxGor, want)
		}
		if want := sorty.FloatOption(sc.NaN); sorty.NaNoption != want {
			r.Add("setting", "NaNoption is %d after the last call, it was set to %d", sorty.NaNoption, want)
		}
	}
	e.o.res = r
	e.o.calls = s.Calls
	e.o.sites = s.SiteHit
	e.o.st.gcCycles, e.o.st.gcSlots = s.GCCycles()
	if pol != nil {
		e.o.pol = pol.Kind
	}
	e.finish(r)
	if sc.Boot {
		e.o.st.boots++
		if !up {
			e.o.st.refused++
		}
		if want := consistent(sc.Lim, sc.Gor); up != want {
			r.Add("boot", "start with MaxLenIns %d, MaxLenInsFC %d, MaxLenRec %d, MaxLenRecFC %d, MaxGor %d: accepted %v, consistent %v",
				sc.Lim[0], sc.Lim[1], sc.Lim[2], sc.Lim[3], sc.Gor, up, want)
		}
	}
	return e.o
}

// do performs one library call and judges it.
func (e *exec) do(op *Op, c *coll, nested bool) {
	s := e.s
	st := &e.o.st
	st.calls++
	if nested {
		st.nested++
	}
	n := op.Hi - op.Lo
	call := &simrt.Call{Region: c.reg, Lo: op.Lo, Hi: op.Hi}
	call.Desc = fmt.Sprintf("call %d %s(%s n=%d)", e.seq, op.Do, c.d.Typ, n)
	call.User = op
	e.seq++
	st.elems += n
	lo, hi := op.Lo, op.Hi
	var before []w3
	sorting := isSort(op.Do)
	if sorting {
		st.sorts++
		for i := lo; i < hi; i++ {
			c.used[i] = true
		}
		before = c.snap(lo, hi)
	} else {
		st.queries++
		call.Query = true
	}
	var lsw sorty.Lesswap
	if op.Do == "lsw" || op.Do == "islsw" {
		lsw = e.comparator(op, c, call)
	}
	var pred func(int) bool
	if op.Do == "search" {
		pred = func(i int) bool {
			call.Lsws++
			if call.Lsws > 4096 {
				panic("Search does not end")
			}
			if i < 0 || i >= n {
				e.bad("query-wrong", "Search(%d) called its function with %d", n, i)
				return true
			}
			// the element is looked at, the answer is the model's
			touch(c, lo+i, false)
			return i >= op.K
		}
	}
	var arg any
	if op.Do != "lsw" && op.Do != "islsw" && op.Do != "search" {
		arg = c.slice(lo, hi)
	}
	ret := -1
	var panicked any
	didPanic := true
	func() {
		defer func() {
			if didPanic {
				panicked = recover()
				if panicked == nil && !s.Aborting() {
					e.bad("panic-lost", "%s: comparator called Goexit", call.Desc)
				}
			}
			simrt.End(call, didPanic)
			if didPanic {
				if !s.Aborting() && !sameValue(call, op.PanicKind, panicked) {
					e.bad("panic", "%s panicked: %v", call.Desc, panicked)
				}
			}
		}()
		var m0, m1 runtime.MemStats
		if e.sc.OpAlloc {
			runtime.ReadMemStats(&m0)
		}
		simrt.Begin(call)
		switch op.Do {
		case "slice":
			sorty.SortSlice(arg)
		case "len":
			sorty.SortLen(arg)
		case "lsw":
			sorty.Sort(n, lsw)
		case "isslice":
			ret = sorty.IsSortedSlice(arg)
		case "islen":
			ret = sorty.IsSortedLen(arg)
		case "islsw":
			ret = sorty.IsSorted(n, lsw)
		case "search":
			ret = sorty.Search(n, pred)
		}
		if e.sc.OpAlloc {
			runtime.ReadMemStats(&m1)
			call.RealAlloc = m1.TotalAlloc - m0.TotalAlloc
		}
		didPanic = false
	}()
	if s.Aborting() {
		runtime.Goexit()
	}
	if didPanic {
		e.panicked = true
		st.panics++
		return // reported if it is not the one sent
	}
	if call.PanicSent {
		e.bad("panic-lost", "%s returned normally although its comparator panicked", call.Desc)
		return
	}
	// judge the result at the very moment of the return
	if sorting {
		if op.Do == "lsw" {
			if i := e.lswUnsorted(op, c); i >= 0 {
				e.bad("unsorted", "%s order %q returned with element %d less than its predecessor", call.Desc, op.Ord, i-lo)
			}
		} else if e.sc.NaN != 0 || !hasNaN(c, lo, hi) {
			if i := c.unsorted(lo, hi, e.sc.NaN); i >= 0 {
				e.bad("unsorted", "%s returned with elements %d and %d out of order: %x %x", call.Desc, i-lo-1, i-lo, c.raw(i-1), c.raw(i))
			}
		}
		if ok, why := samePerm(before, c.snap(lo, hi)); !ok {
			e.bad("altered", "%s changed the elements: %s", call.Desc, why)
		}
		if op.Use {
			for i := lo; i < hi; i++ {
				touch(c, i, false)
			}
			for i := lo; i < hi; i++ {
				touch(c, i, true)
			}
		}
		return
	}
	e.judgeQuery(op, c, call, ret)
}

func hasNaN(c *coll, lo, hi int) bool {
	for i := lo; i < hi; i++ {
		if c.isNaN(i) {
			return true
		}
	}
	return false
}

// touch is an access of the harness to an element.
func touch(c *coll, i int, w bool) {
	p := (*byte)(c.ptr(i))
	if w {
		simrt.W(0, p)
	} else {
		simrt.Touch(0, p)
	}
}

func (e *exec) judgeQuery(op *Op, c *coll, call *simrt.Call, ret int) {
	lo, hi := op.Lo, op.Hi
	n := hi - lo
	wrong := func(f string, a ...any) {
		e.bad("query-wrong", "%s returned %d: %s", call.Desc, ret, fmt.Sprintf(f, a...))
	}
	switch op.Do {
	case "search":
		want := op.K
		if want < 0 {
			want = 0
		}
		if want > n {
			want = n
		}
		if ret != want {
			wrong("lowest index satisfying the predicate is %d", want)
		}
	case "islsw":
		bad := e.lswUnsorted(op, c)
		switch {
		case ret == 0 && bad >= 0:
			wrong("element %d is less than its predecessor", bad-lo)
		case ret != 0 && bad < 0:
			wrong("collection is sorted")
		case ret < 0 || ret >= n && ret != 0:
			wrong("not a valid position")
		case ret > 0 && !lessKey(op.Ord, c.lswv[lo+ret], c.lswv[lo+ret-1]):
			wrong("that element is not less than its predecessor")
		}
	default:
		if e.sc.NaN == 0 && hasNaN(c, lo, hi) {
			return
		}
		bad := c.unsorted(lo, hi, e.sc.NaN)
		switch {
		case ret == 0 && bad >= 0:
			wrong("elements %d and %d are out of order", bad-lo-1, bad-lo)
		case ret != 0 && bad < 0:
			wrong("collection is sorted")
		case ret < 0 || ret >= n && ret != 0:
			wrong("not a valid position")
		case ret > 0 && !c.isNaN(lo+ret) && !c.isNaN(lo+ret-1) && !c.less(lo+ret, lo+ret-1):
			wrong("that element is not less than its predecessor")
		}
	}
}

func lessKey(ord string, a, b uint64) bool {
	x, y := a>>32, b>>32
	switch ord {
	case "desc":
		return x > y
	case "mod":
		return x%7 < y%7
	case "eq":
		return false
	}
	return x < y
}

func (e *exec) lswUnsorted(op *Op, c *coll) int {
	if op.Ord == "adv" || op.Ord == "peel" {
		a := e.adv[c]
		if a == nil {
			return -1
		}
		for i := op.Lo + 1; i < op.Hi; i++ {
			if a.less(c.lswv[i], c.lswv[i-1]) {
				return i
			}
		}
		return -1
	}
	for i := op.Lo + 1; i < op.Hi; i++ {
		if lessKey(op.Ord, c.lswv[i], c.lswv[i-1]) {
			return i
		}
	}
	return -1
}

// comparator builds the lesswap function of a call, faults included.
func (e *exec) comparator(op *Op, c *coll, call *simrt.Call) sorty.Lesswap {
	a := c.lswv
	lo, n := op.Lo, op.Hi-op.Lo
	var onCaller, nests uint64
	swap := func(r, s int) {
		v := simrt.Rd(0, &a[lo+r])
		w := simrt.Rd(0, &a[lo+s])
		*simrt.W(0, &a[lo+r]) = w
		*simrt.W(0, &a[lo+s]) = v
	}
	stalls := 0
	var adv adversary
	if op.Ord == "adv" || op.Ord == "peel" {
		if adv = e.adv[c]; adv == nil {
			adv = newAdversary(op)
			e.adv[c] = adv
		}
	}
	return func(i, k, r, s int) bool {
		if !simrt.Lsw(call, n, i, k, r, s) {
			return false
		}
		late := false
		if simrt.Cur() == call.Caller {
			if onCaller++; onCaller == op.PanicAt {
				if late = op.PanicLate; !late {
					injectPanic(call, op.PanicKind)
				}
			}
		}
		if op.StallEach > 0 && call.Lsws%op.StallEach == 0 && stalls < op.StallMax {
			stalls++
			e.o.st.stalls++
			simrt.SleepUntil(simrt.Now() + op.StallLen)
		}
		if op.NestEach > 0 && call.Lsws%op.NestEach == 0 && int(nests) < op.NestMax {
			nests++
			e.nest(op)
		}
		x := simrt.Rd(0, &a[lo+i])
		y := simrt.Rd(0, &a[lo+k])
		var less bool
		if adv != nil {
			less = adv.ask(x, y)
		} else {
			less = lessKey(op.Ord, x, y)
		}
		if less {
			if r != s {
				swap(r, s)
			}
		}
		if late {
			injectPanic(call, op.PanicKind)
		}
		return less
	}
}

// nest sorts a fresh collection from inside a comparator.
func (e *exec) nest(op *Op) {
	d := *op.NestColl
	d.Seed += uint64(e.seq)
	c := newColl(&d)
	c.reg = e.s.AddRegion(fmt.Sprintf("%s nested#%d", d.Typ, e.seq), c.base, c.esz, c.n)
	e.s.AddPayload(c.pay)
	e.colls = append(e.colls, c)
	e.do(op.NestOp, c, true)
}

// finish judges the history after the run.
func (e *exec) finish(r *simrt.Result) {
	sc := e.sc
	st := &e.o.st
	// elements outside every sorting call are untouched; all elements survive
	if !r.Fatal || !onlyClass(r, "hang") {
		for i, c := range e.colls {
			now := c.snap(0, c.n)
			for k := range now {
				if !c.used[k] && now[k] != c.orig[k] {
					r.Add("guard", "element %d of collection %d (%s) changed though no call was given it", k, i, c.d.Typ)
					break
				}
			}
		}
	}
	if !r.Fatal {
		for i, c := range e.colls {
			if ok, why := samePerm(c.orig, c.snap(0, c.n)); !ok {
				r.Add("altered", "collection %d (%s) does not hold its elements at the end: %s", i, c.d.Typ, why)
			}
		}
	}
	for _, c := range e.o.calls {
		op := c.User.(*Op)
		if op.Do == "misuse" || op.Do == "vsearch" || op.Do == "nothing" {
			continue
		}
		st.helpers += len(c.Helpers)
		st.chans += c.Chans
		if len(c.Helpers) > 0 {
			st.par++
		}
		if c.MaxDepth > st.maxDepth {
			st.maxDepth = c.MaxDepth
		}
		e.judgeResources(r, c, op)
		if dbg && !c.Query {
			fmt.Fprintf(os.Stderr, "alloc %d real %d helpers %d n %d %s %s\n", c.AllocBytes, c.RealAlloc, len(c.Helpers), c.Hi-c.Lo, e.typOf(c.Region), op.Do)
		}
		if !c.Query && !coarse(sc.Variant) {
			e.judgeBudget(r, c, op)
		}
		if !c.Query && c.Returned && !c.Panicked {
			e.judgeUse(r, c, op)
		}
	}
	sort.SliceStable(r.Viol, func(i, k int) bool { return r.Viol[i].Step < r.Viol[k].Step })
}

func onlyClass(r *simrt.Result, class string) bool {
	for _, v := range r.Viol {
		if v.Class != class {
			return false
		}
	}
	return true
}

func coarse(v string) bool { return v == "coarse" }

// gorRange is the smallest and largest value MaxGor may have had in [from,to].
func (e *exec) gorRange(from, to uint64) (lo, hi uint64) {
	lo = ^uint64(0)
	g := e.o.gors
	for i, ev := range g {
		endd := ^uint64(0)
		if i+1 < len(g) {
			endd = g[i+1].after
		}
		if ev.before <= to && endd >= from {
			if ev.val < lo {
				lo = ev.val
			}
			if ev.val > hi {
				hi = ev.val
			}
		}
	}
	return
}

func (e *exec) judgeResources(r *simrt.Result, c *simrt.Call, op *Op) {
	n := c.Hi - c.Lo
	typ := ""
	if c.Region != nil {
		typ = e.typOf(c.Region)
	}
	limit := e.sc.serialLimit(op, typ)
	end := c.End
	if !c.Returned {
		end = e.s.Step()
	}
	_, hi := e.gorRange(c.Start, end)
	if !c.Query {
		why := ""
		if hi <= 1 {
			why = fmt.Sprintf("MaxGor was %d", hi)
		} else if n <= limit {
			why = fmt.Sprintf("%d elements are within the recursion limit %d", n, limit)
		}
		if why != "" {
			if len(c.Helpers) > 0 || c.Chans > 0 {
				r.Add("serial", "%s created %d goroutines and %d channels although %s", c.Desc, len(c.Helpers), c.Chans, why)
			}
			if hi <= 1 && c.OffCaller > 0 {
				r.Add("offcaller", "%s invoked the comparator on another goroutine although %s", c.Desc, why)
			}
		}
	}
	if c.Chans > 1 {
		r.Add("chan", "%s created %d channels", c.Desc, c.Chans)
	}
	if !coarse(e.sc.Variant) && c.Returned && !c.Panicked && !c.Query {
		for _, h := range c.Helpers {
			span := h.MaxIdx - h.MinIdx + 1
			if h.Touched == 0 {
				span = 0
			}
			if span < e.sc.minPart(limit) {
				r.Add("smallpart", "%s started goroutine %d for a part of %d elements, recursion limit %d", c.Desc, h.ID, span, limit)
				break
			}
			if minSpan == 0 || span-limit < minSpanD {
				minSpan, minSpanD = span, span-limit
			}
		}
	}
	esz := uint64(8)
	if c.Region != nil {
		esz = uint64(c.Region.ElemSize())
	}
	if c.AllocBytes > 2048+512*uint64(len(c.Helpers)+1) && c.AllocBytes > uint64(n)*esz/64 {
		r.Add("alloc", "%s allocated %d bytes in slices for %d elements", c.Desc, c.AllocBytes, n)
	}
	// the simulator itself needs some memory for each goroutine (vector clocks)
	h := uint64(len(c.Helpers))
	if c.RealAlloc > 8192+h*(4096+16*h) && c.RealAlloc > uint64(n)*esz/16 {
		r.Add("alloc", "%s allocated %d bytes for %d elements with %d goroutines", c.Desc, c.RealAlloc, n, len(c.Helpers))
	}
	if d := depthBound(n); c.MaxDepth > d {
		r.Add("nest", "%s nested calls %d deep for %d elements (bound %d)", c.Desc, c.MaxDepth, n, d)
	}
}

var minSpan, minSpanD int

func (sc *Scenario) minPart(limit int) int { return limit - 4 }

// depthBound is a generous logarithmic bound on the nesting of calls.
func depthBound(n int) int {
	l := 0
	for ; n > 0; n >>= 1 {
		l++
	}
	return 14 + 3*l
}

func (e *exec) typOf(reg *simrt.Region) string {
	for _, c := range e.colls {
		if c.reg == reg {
			return c.d.Typ
		}
	}
	return ""
}

// judgeBudget compares the goroutines at work with MaxGor over the whole history.
func (e *exec) judgeBudget(r *simrt.Result, c *simrt.Call, op *Op) {
	iv := c.BusyIntervals()
	end := c.End
	if !c.Returned {
		end = e.s.Step()
	}
	for k, a := range iv {
		n := uint64(0)
		for _, b := range iv {
			if b.From <= a.From && a.From <= b.To {
				n++
			}
		}
		if int(n) > e.o.st.maxPeak {
			e.o.st.maxPeak = int(n)
		}
		if k == 0 || c.Panicked {
			continue
		}
		_, hi := e.gorRange(c.Start, a.From)
		if hi < 1 {
			hi = 1
		}
		if n > hi {
			r.Add("budget", "%s had %d goroutines at work at step %d; MaxGor has been at most %d since it began", c.Desc, n, a.From, hi)
			break
		}
	}
	if len(e.sc.Oper) == 0 || c.Panicked {
		return
	}
	// starts beyond a lowered limit: only decisions already taken are excused
	g := e.o.gors
	for i := 1; i < len(g); i++ {
		if g[i].val >= g[i-1].val || g[i].after <= c.Start || g[i].before >= end {
			continue
		}
		until := ^uint64(0)
		low := g[i].val
		if low < 1 {
			low = 1
		}
		if i+1 < len(g) {
			until = g[i+1].before
		}
		at := g[i].after
		atWork := 0
		for _, b := range iv {
			if b.From <= at && at <= b.To {
				atWork++
			}
		}
		excess := 0
		for _, a := range iv[1:] {
			if a.From <= at || a.From >= until {
				continue
			}
			n := uint64(0)
			for _, b := range iv {
				if b.From <= a.From && a.From <= b.To {
					n++
				}
			}
			if n > low {
				excess++
			}
		}
		if excess > 2*atWork {
			r.Add("gorlive", "%s started %d goroutines beyond the limit %d set at step %d, when only %d were at work", c.Desc, excess, low, at, atWork)
			return
		}
	}
}

// judgeUse checks that quota is used; see gen.go for the scenarios where it applies.
func (e *exec) judgeUse(r *simrt.Result, c *simrt.Call, op *Op) {
	if !op.Judge {
		return
	}
	iv := c.BusyIntervals()
	peak, after := 0, 0
	for k, a := range iv {
		n := 0
		for _, b := range iv {
			if b.From <= a.From && a.From <= b.To {
				n++
			}
		}
		if n > peak {
			peak = n
		}
		if k > 0 && len(e.sc.Oper) > 0 && a.From > e.o.gors[len(e.o.gors)-1].after {
			after++
		}
	}
	if !c.Returned || c.Panicked {
		return
	}
	ratio := (c.Hi - c.Lo) / e.sc.serialLimit(op, e.typOf(c.Region))
	gor := int(e.sc.Gor)
	if e.sc.Gor > 64 { // as good as some
		gor = 4
	}
	min := func(a, b int) int {
		if a < b {
			return a
		}
		return b
	}
	if dbg {
		fmt.Fprintf(os.Stderr, "use %s ops %d clients %d type %s gor %d ratio %d helpers %d peak %d after %d to %d sets %d\n", e.sc.Expect, len(e.sc.Clients[0].Ops), len(e.sc.Clients), e.typOf(c.Region), e.sc.Gor, ratio, len(c.Helpers), peak, after, e.o.gors[len(e.o.gors)-1].val, len(e.o.gors))
	}
	if ratio < 12 || gor < 2 {
		return
	}
	// The figures are far below what any of many thousand runs reached.
	low := func(what string, got, want int) {
		if got < want {
			r.Add("unused", "%s, %d times the recursion limit, MaxGor %d: %s is %d, at least %d is expected", c.Desc, ratio, e.sc.Gor, what, got, want)
		}
	}
	low("number of goroutines started", len(c.Helpers), 1)
	switch e.sc.Expect {
	case "reuse":
		low("number of goroutines started while each ends at once", len(c.Helpers), min(1+gor, 1+ratio/6))
	case "raise":
		if ratio >= 24 {
			low(fmt.Sprintf("number of goroutines started after MaxGor became %d at step %d", e.o.gors[len(e.o.gors)-1].val, e.o.gors[len(e.o.gors)-1].after), after, 2)
			low(fmt.Sprintf("most goroutines at work although MaxGor became %d at step %d", e.o.gors[len(e.o.gors)-1].val, e.o.gors[len(e.o.gors)-1].after), peak, 3)
		}
	case "share":
		want := min(gor, 4)
		if gor == 4 {
			want = 3
		}
		low("most goroutines at work at once", peak, want)
	}
}

var dbg = os.Getenv("SIMDEBUG") != ""

var _ = unsafe.Pointer(nil)
