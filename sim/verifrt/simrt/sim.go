// Package simrt is a deterministic simulator for Go code whose scheduling points
// were made explicit by verif/sim/instr. Tasks are real goroutines of which exactly
// one runs at a time; who runs next is decided here from one seed.
package simrt

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// S is the running simulation, nil outside one.
var S *Sim

// Sites maps site numbers to source positions (set by the harness).
var Sites []string

type tstate uint8

const (
	tRunnable tstate = iota
	tBlocked
	tSleeping
	tDone
)

var stNames = [...]string{"runnable", "blocked", "sleeping", "done"}

// Task is one simulated goroutine.
type Task struct {
	ID    int
	Name  string
	st    tstate
	wake  chan struct{}
	vc    []uint32
	call  *Call
	root  bool
	depth int

	SpawnStep, EndStep, LastTouch uint64
	Touched                       uint64 // accesses to the collection of its call
	MinIdx, MaxIdx                int
	CallDepth                     int // deepest nesting
	baseDepth                     int

	wakeAt     uint64
	stallUntil uint64
	site       uint32
	blockedOn  string
	prio       uint64
	met        uint64 // step of its pending synchronization, 0: none (policy meet)
	gen        int    // how many goroutines down from a client
	lastRun    uint64
	waits      uint64 // runnable, but not running, since
	chVal      any
	chOK       bool
	selIdx     int
}

// Call is one invocation of the library by a client.
type Call struct {
	ID         int
	Desc       string
	Caller     *Task
	Region     *Region
	Lo, Hi     int // elements the call was given
	Start, End uint64
	Returned   bool
	Panicked   bool
	Query      bool // read-only call
	Opaque     bool // elements are accessed only by the comparator
	Helpers    []*Task
	Chans      int
	AllocBytes uint64
	MaxAlloc   uint64
	MaxDepth   int
	CallerLast uint64 // last touch by the caller within the call
	outer      *Call
	Lsws       uint64
	saveBase   int
	saveDepth  int
	OffCaller  uint64 // comparator invocations on helper goroutines
	RealAlloc  uint64 // bytes really allocated during the call, where measured
	PanicSent  bool   // the comparator panicked
	PanicVal   any    // with this
	User       any
}

// Violation is something an oracle objected to.
type Violation struct {
	Class string
	Msg   string
	Step  uint64
}

// Choice is one scheduling decision that differs from the default, or (To negative)
// a jump of the clock.
type Choice struct {
	Step uint64 `json:"s"`
	To   int    `json:"t"`
	Adv  uint64 `json:"adv,omitempty"`
}

// Stats are counters of one run.
type Stats struct {
	Steps, Switches, SyncOps, Spawns, Chans, Sends, Recvs, Atomics, CASFail, Locks uint64
	Preempts, Stalls, SpawnDelays, TimerJumps, BlockedChoices                      uint64
	Blocks, Orphans, ClockJumps                                                    uint64
	MaxTasks                                                                       int
}

// Sim is one simulation run.
type Sim struct {
	step, next, cap uint64
	off             uint64 // simulated time is step+off
	yielding        bool   // the current task offers the processor to others
	usesTime        bool   // the library has asked for the time or a timer
	cur             *Task
	tasks           []*Task
	pol             *Policy
	replay          []Choice
	replaying       bool
	ri              int
	polNext         uint64
	Trace           []Choice
	traceMax        int
	sig             uint64
	timers          []*Task

	Regions []*Region
	lastReg *Region
	cells   map[uintptr]*cell
	syncs   map[uintptr]*SyncObj
	chans   map[unsafe.Pointer]*chanState

	Calls    []*Call
	viol     []Violation
	violSeen map[string]int
	fatal    bool
	aborting bool
	doneCh   chan struct{}
	ack      chan struct{}
	St       Stats
	SiteHit  []uint64
	MaxDepth int
	keep     []unsafe.Pointer
	OnTouch  func(t *Task, i int, write bool) // observes accesses to the collection of a call
	payload  [][2]uintptr
	Gors     []GorEvent
	gc       *gcState

	RandSeed, rnd uint64
}

// GorEvent is a change of the goroutine limit.
type GorEvent struct {
	Step  uint64
	Value uint64
}

// New prepares a run. pol decides the schedule unless replay is given.
func New(pol *Policy, replay []Choice, isReplay bool, stepCap uint64) *Sim {
	s := &Sim{cap: stepCap, pol: pol, replay: replay, replaying: isReplay,
		cells: map[uintptr]*cell{}, syncs: map[uintptr]*SyncObj{}, chans: map[unsafe.Pointer]*chanState{},
		violSeen: map[string]int{}, doneCh: make(chan struct{}, 1), ack: make(chan struct{}, 1),
		SiteHit: make([]uint64, len(Sites)/64+2), traceMax: 1 << 22, sig: 14695981039346656037}
	return s
}

// Client adds a root task. Call before Run.
func (s *Sim) Client(name string, f func()) *Task {
	t := s.newTask(name)
	t.root = true
	t.vc = make([]uint32, t.ID+1)
	t.vc[t.ID] = 1
	s.start(t, f)
	return t
}

func (s *Sim) newTask(name string) *Task {
	t := &Task{ID: len(s.tasks), Name: name, wake: make(chan struct{}, 1), MinIdx: 1 << 30, MaxIdx: -1}
	s.tasks = append(s.tasks, t)
	if s.pol != nil {
		if s.cur != nil {
			t.gen = s.cur.gen + 1
		}
		s.pol.onSpawn(s, t)
	}
	return t
}

func (s *Sim) start(t *Task, f func()) {
	go func() {
		<-t.wake
		defer func() {
			if s.aborting {
				recover()
				s.ack <- struct{}{}
				return
			}
			if e := recover(); e != nil {
				s.panicked(t, e)
				s.ack <- struct{}{}
				return
			}
			if s.finish(t) {
				return
			}
		}()
		if s.aborting {
			return
		}
		f()
	}()
}

// panicked: an uncaught panic in a simulated goroutine ends the program it runs in.
func (s *Sim) panicked(t *Task, e any) {
	st := string(debug.Stack())
	loc := ""
	if i := strings.Index(st, "panic("); i >= 0 {
		lines := strings.Split(st[i:], "\n")
		for _, l := range lines {
			if l = strings.TrimSpace(l); strings.Contains(l, ".go:") && !strings.Contains(l, "/runtime/") && !strings.Contains(l, "verifrt") {
				if k := strings.LastIndex(l, "/"); k >= 0 {
					l = l[k+1:]
				}
				if k := strings.Index(l, " "); k >= 0 {
					l = l[:k]
				}
				loc = " (instrumented " + l + ")"
				break
			}
		}
	}
	s.Report("panic", fmt.Sprintf("goroutine %d %s panicked: %v, last seen at %s%s", t.ID, t.Name, e, siteName(t.site), loc))
	s.fatal, s.aborting = true, true
	s.doneCh <- struct{}{}
}

func siteName(n uint32) string {
	if n == 0 || int(n) > len(Sites) {
		return "harness"
	}
	return Sites[n-1]
}

// Report records a violation; the run goes on.
func (s *Sim) Report(class, msg string) {
	s.violSeen[class]++
	if s.violSeen[class] <= 3 {
		s.viol = append(s.viol, Violation{class, msg, s.step})
	}
}

// die records a violation and ends the run.
func (s *Sim) die(class, msg string) {
	s.Report(class, msg)
	s.fatal, s.aborting = true, true
	s.doneCh <- struct{}{}
	runtime.Goexit()
}

// Result of a run.
type Result struct {
	Viol  []Violation
	Fatal bool
	Trace []Choice
	Steps uint64
	Sig   uint64
	St    Stats
}

// Run executes until every task has ended or the run is dead.
func (s *Sim) Run() *Result {
	S = s
	if len(s.tasks) > 0 {
		s.polNext = ^uint64(0)
		if s.pol != nil && !s.replaying {
			s.polNext = s.pol.first(s)
		}
		s.setNext()
		t := s.tasks[0]
		if c := s.choose(nil, true); c != nil {
			t = c
		}
		s.cur = t
		t.wake <- struct{}{}
		<-s.doneCh
	}
	if s.aborting {
		for i := 0; i < len(s.tasks); i++ {
			t := s.tasks[i]
			if t.st == tDone {
				continue
			}
			if t != s.cur {
				t.wake <- struct{}{}
			}
			<-s.ack
			t.st = tDone
		}
	}
	S = nil
	s.St.Steps = s.step
	s.St.MaxTasks = len(s.tasks)
	return &Result{Viol: s.viol, Fatal: s.fatal, Trace: s.Trace, Steps: s.step, Sig: s.sig, St: s.St}
}

// Add reports further violations after the run.
func (r *Result) Add(class, f string, a ...any) {
	n := 0
	for _, v := range r.Viol {
		if v.Class == class {
			n++
		}
	}
	if n < 3 {
		r.Viol = append(r.Viol, Violation{class, fmt.Sprintf(f, a...), r.Steps})
	}
}

// finish ends the current task and passes the token on.
func (s *Sim) finish(t *Task) bool {
	t.st = tDone
	t.EndStep = s.step
	s.step++
	s.mix(uint64(t.ID)<<8 | 9)
	n := s.chooseBlocked()
	if n == nil {
		s.endIdle()
		return true
	}
	s.handTo(n)
	return true
}

// endIdle: nothing can run any more.
func (s *Sim) endIdle() {
	var stuck []string
	client := false
	for _, t := range s.tasks {
		if t.st == tBlocked {
			if !t.root && t.call != nil && t.call.Panicked {
				s.St.Orphans++ // a helper of a call whose comparator panicked
				continue
			}
			stuck = append(stuck, fmt.Sprintf("goroutine %d %s on %s at %s", t.ID, t.Name, t.blockedOn, siteName(t.site)))
			client = client || t.root
		}
	}
	if len(stuck) > 0 {
		if client {
			s.Report("deadlock", "no goroutine can run: "+strings.Join(stuck, "; "))
		} else {
			s.Report("leak", "goroutines blocked forever after all calls returned: "+strings.Join(stuck, "; "))
		}
		s.fatal, s.aborting = true, true
	}
	if s.St.Orphans > 0 {
		s.aborting = true
	}
	s.doneCh <- struct{}{}
}

func (s *Sim) handTo(n *Task) {
	s.cur = n
	s.St.Switches++
	n.lastRun = s.step
	n.wake <- struct{}{}
}

// switchTo parks the current task t and runs n.
func (s *Sim) switchTo(t, n *Task) {
	if n == t {
		return
	}
	s.mix(uint64(n.ID)<<8 | 1)
	t.waits = s.step
	s.handTo(n)
	<-t.wake
	if s.aborting {
		runtime.Goexit()
	}
}

func (s *Sim) mix(x uint64) {
	s.sig = (s.sig ^ x) * 1099511628211
}

func (s *Sim) setNext() {
	n := s.polNext
	if s.replaying {
		n = ^uint64(0)
		if s.ri < len(s.replay) {
			n = s.replay[s.ri].Step
		}
	}
	for _, t := range s.timers {
		if w := t.wakeAt - s.off; t.wakeAt <= s.off {
			n = 0
		} else if w < n {
			n = w
		}
	}
	if s.cap < n {
		n = s.cap
	}
	s.next = n
}

// fireTimers makes sleepers whose time has come runnable; returns the first of them.
func (s *Sim) fireTimers() *Task {
	var first *Task
	k := 0
	for _, t := range s.timers {
		if t.wakeAt <= s.step+s.off {
			t.st, t.waits = tRunnable, s.step
			if first == nil {
				first = t
			}
		} else {
			s.timers[k] = t
			k++
		}
	}
	s.timers = s.timers[:k]
	return first
}

func (s *Sim) runnable(buf []*Task) []*Task {
	for _, t := range s.tasks {
		if t.st == tRunnable {
			buf = append(buf, t)
		}
	}
	return buf
}

func (s *Sim) anyRunnable() *Task {
	for _, t := range s.tasks {
		if t.st == tRunnable {
			return t
		}
	}
	return nil
}

// chooseBlocked picks a task to run when the current one cannot go on.
func (s *Sim) chooseBlocked() *Task {
	s.fireTimers()
	for s.anyRunnable() == nil {
		if len(s.timers) == 0 {
			return nil
		}
		min := s.timers[0].wakeAt
		for _, t := range s.timers {
			if t.wakeAt < min {
				min = t.wakeAt
			}
		}
		s.off = min - s.step // simulated time jumps to the next event
		s.St.TimerJumps++
		s.fireTimers()
	}
	n := s.choose(nil, true)
	s.setNext()
	return n
}

// choose returns the task to run next; cur is nil if the current task cannot run.
func (s *Sim) choose(cur *Task, sync bool) *Task {
	def := cur
	if def == nil {
		def = s.anyRunnable()
	}
	if s.yielding { // somebody else goes on, if possible
		s.yielding = false
		for i := range s.tasks {
			if t := s.tasks[(cur.ID+1+i)%len(s.tasks)]; t.st == tRunnable {
				def = t
				break
			}
		}
		if s.pol != nil && cur != nil && def != cur {
			cur.stallUntil = s.step + uint64(1+s.pol.r.N(64))
		}
	}
	if s.replaying {
		for s.ri < len(s.replay) && (s.replay[s.ri].Step < s.step || s.replay[s.ri].Step == s.step && s.replay[s.ri].To < 0) {
			s.ri++
		}
		if s.ri < len(s.replay) && s.replay[s.ri].Step == s.step {
			to := s.replay[s.ri].To
			s.ri++
			if to < len(s.tasks) && s.tasks[to].st == tRunnable {
				def = s.tasks[to]
			}
		}
		if def != nil {
			if cur == nil {
				s.St.BlockedChoices++
			} else if def != cur {
				s.St.Preempts++
			}
		}
		return def
	}
	n := def
	if s.pol != nil && def != nil {
		n = s.pol.pick(s, cur, sync)
		if n == nil {
			n = def
		}
	}
	if cur == nil {
		s.St.BlockedChoices++
	} else if n != cur {
		s.St.Preempts++
	}
	if n != def && len(s.Trace) < s.traceMax {
		s.Trace = append(s.Trace, Choice{Step: s.step, To: n.ID})
	}
	return n
}

// slow is the out-of-line part of a memory scheduling point.
func (s *Sim) slow(site uint32) {
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	t.site = site
	if s.step >= s.cap {
		s.die("hang", fmt.Sprintf("no end after %d steps; running goroutine %d %s at %s; %s", s.step, t.ID, t.Name, siteName(site), s.dump()))
	}
	var n *Task
	if f := s.fireTimers(); f != nil && !s.replaying {
		n = f // an external event happens exactly now
		if len(s.Trace) < s.traceMax {
			s.Trace = append(s.Trace, Choice{Step: s.step, To: n.ID})
		}
		s.St.Preempts++
	} else {
		n = s.choose(t, false)
	}
	s.setNext()
	s.switchTo(t, n)
}

func (s *Sim) dump() string {
	var b strings.Builder
	for i, t := range s.tasks {
		if t.st != tDone && i < 40 {
			fmt.Fprintf(&b, "[%d %s %s %s %s]", t.ID, t.Name, stNames[t.st], t.blockedOn, siteName(t.site))
		}
	}
	return b.String()
}

// yield is a scheduling point without synchronization.
func (s *Sim) yield(site uint32) {
	s.step++
	if s.step >= s.next {
		s.slow(site)
	}
}

// Sync is a scheduling point around a synchronization operation.
func (s *Sim) syncPoint(site uint32, kind uint64) {
	if s.aborting {
		runtime.Goexit()
	}
	s.step++
	t := s.cur
	t.site = site
	s.St.SyncOps++
	s.mix(uint64(t.ID)<<8 | kind)
	if s.step >= s.cap {
		s.slow(site)
		return
	}
	s.jump()
	f := s.fireTimers()
	n := s.choose(t, true)
	if f != nil && !s.replaying && n == t {
		n = f
		s.Trace = append(s.Trace, Choice{Step: s.step, To: n.ID})
	}
	s.setNext()
	s.switchTo(t, n)
}

// block parks the current task until another one makes it runnable.
func (s *Sim) block(t *Task, on string) {
	if s.aborting {
		runtime.Goexit()
	}
	t.st = tBlocked
	t.blockedOn = on
	s.step++
	s.St.Blocks++
	s.mix(uint64(t.ID)<<8 | 2)
	n := s.chooseBlocked()
	if n == nil {
		s.endIdle() // reports the deadlock and starts aborting
		if !s.aborting {
			s.aborting = true
		}
		runtime.Goexit()
	}
	if n != t {
		s.handTo(n)
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
	t.blockedOn = ""
}

func (s *Sim) ready(t *Task) { t.st, t.waits = tRunnable, s.step }

// jump is where the clock may jump: everything stood still for a while, but the time.
// Nothing but timers and deadlines of the library can notice.
func (s *Sim) jump() {
	if s.replaying {
		for s.ri < len(s.replay) && s.replay[s.ri].Step < s.step {
			s.ri++
		}
		if s.ri < len(s.replay) && s.replay[s.ri].Step == s.step && s.replay[s.ri].To < 0 {
			s.off += s.replay[s.ri].Adv
			s.St.ClockJumps++
			s.ri++
		}
		return
	}
	if !s.usesTime || s.pol == nil {
		return
	}
	if adv := s.pol.jump(); adv > 0 && len(s.Trace) < s.traceMax {
		s.off += adv
		s.St.ClockJumps++
		s.Trace = append(s.Trace, Choice{Step: s.step, To: -1, Adv: adv})
	}
}

// UsesTime is called when the library asks for the time or starts a timer.
func UsesTime() {
	if S != nil {
		S.usesTime = true
	}
}

// SleepUntil suspends the current task until the simulated time is at.
func SleepUntil(at uint64) {
	s := S
	t := s.cur
	if s.aborting {
		runtime.Goexit()
	}
	if at <= s.step+s.off {
		s.syncPoint(0, 3)
		return
	}
	t.wakeAt = at
	t.st = tSleeping
	s.timers = append(s.timers, t)
	sort.SliceStable(s.timers, func(i, k int) bool { return s.timers[i].wakeAt < s.timers[k].wakeAt })
	s.step++
	n := s.chooseBlocked()
	if n == nil {
		s.endIdle()
		runtime.Goexit()
	}
	if n != t {
		s.handTo(n)
		<-t.wake
		if s.aborting {
			runtime.Goexit()
		}
	}
}

// Now is the simulated time.
func Now() uint64 {
	if S == nil {
		return 0
	}
	return S.step + S.off
}

// Steps is the number of steps done.
func Steps() uint64 {
	if S == nil {
		return 0
	}
	return S.step
}

// Time is the simulated time of the run.
func (s *Sim) Time() uint64 { return s.step + s.off }

// Stop ends the run without a verdict.
func (s *Sim) Stop() {
	s.fatal, s.aborting = true, true
	s.doneCh <- struct{}{}
	runtime.Goexit()
}

// Cur is the running task.
func Cur() *Task { return S.cur }

// Aborting tells whether the run is being torn down.
func (s *Sim) Aborting() bool { return s.aborting }

// Tasks of the run.
func (s *Sim) Tasks() []*Task { return s.tasks }

// Step is the current step.
func (s *Sim) Step() uint64 { return s.step }

// ---- hooks called by instrumented code ----

// Tick is the hook at loop heads.
func Tick(site uint32) {
	if s := S; s != nil {
		s.SiteHit[site>>6] |= 1 << (site & 63)
		s.yield(site)
	}
}

const runaway = 60000

// Enter is the hook at function entry.
func Enter(site uint32) *Task {
	s := S
	if s == nil {
		return nil
	}
	if s.aborting {
		runtime.Goexit()
	}
	t := s.cur
	s.SiteHit[site>>6] |= 1 << (site & 63)
	t.depth++
	if d := t.depth - t.baseDepth; d > t.CallDepth {
		t.CallDepth = d
		if c := t.call; c != nil && d > c.MaxDepth {
			c.MaxDepth = d
		}
		if t.depth > runaway {
			t.site = site
			s.die("depth", fmt.Sprintf("runaway recursion: nesting %d at %s", t.depth, siteName(site)))
		}
	}
	return t
}

// Leave is the hook at function exit.
func Leave(t *Task) {
	if t != nil {
		t.depth--
	}
}

// Go starts a simulated goroutine.
func Go(site uint32, f func()) {
	s := S
	if s == nil {
		panic("simrt: goroutine started outside a simulation")
	}
	s.syncPoint(site, 10)
	if len(s.tasks) > 6000 {
		s.die("hang", "no end: more than 6000 goroutines started, last at "+siteName(site))
	}
	p := s.cur
	t := s.newTask("g" + fmt.Sprint(len(s.tasks)))
	t.SpawnStep = s.step
	t.vc = make([]uint32, t.ID+1)
	copy(t.vc, p.vc)
	t.vc[t.ID] = 1
	p.vc[p.ID]++
	t.call = p.call
	t.site = site
	s.St.Spawns++
	if t.call != nil {
		t.call.Helpers = append(t.call.Helpers, t)
		if t.call.Returned {
			s.Report("late", fmt.Sprintf("goroutine started at %s after %s had returned", siteName(site), t.call.Desc))
		}
		if t.call.Query {
			s.Report("query-effect", fmt.Sprintf("goroutine started by a query at %s", siteName(site)))
		}
	}
	s.start(t, f)
	s.syncPoint(site, 11)
}

// Daemon starts a task of the environment: it belongs to no call.
func Daemon(f func()) {
	s := S
	p := s.cur
	t := s.newTask("timer")
	t.SpawnStep = s.step
	t.vc = make([]uint32, t.ID+1)
	copy(t.vc, p.vc)
	t.vc[t.ID] = 1
	p.vc[p.ID]++
	s.start(t, f)
}

// CPUs is the number of processors the run pretends to have.
var CPUs = 8

// NumTasks is the number of live tasks.
func NumTasks() int {
	n := 0
	for _, t := range S.tasks {
		if t.st != tDone {
			n++
		}
	}
	return n
}

// Rand gives random bits that depend on the schedule seed only.
func Rand() uint64 {
	s := S
	if s == nil {
		return 0x9e3779b97f4a7c15
	}
	s.rnd++
	z := (s.RandSeed + s.rnd) * 0x9e3779b97f4a7c15
	z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
	return z ^ z>>31
}
