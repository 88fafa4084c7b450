package simrt

import (
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// The collector is a concurrent, non-moving mark phase like that of the Go runtime: the
// arrays that hold references are scanned piece by piece while the program goes on.
// What the program does with references through typed variables is seen by it (a
// write shades the overwritten and the written reference, a variable is a root), what
// it does with integers of the same size is not. Goroutine stacks count as scanned
// at whatever moment is best for the program. At the end of a mark phase every object
// of the watched arrays must be marked: what is not is freed although elements refer to it.
type gcState struct {
	regs   map[*Region]*gcReg
	order  []*Region
	cnt    map[uintptr]int    // slots that hold the reference
	away   map[uintptr]bool   // in no slot at the moment
	typed  map[uintptr]bool   // has been seen in a variable of reference type
	heap   map[uintptr]bool   // may be held in other memory
	moved  map[uintptr]uint32 // site of its last move behind the collector's back
	pend   []gcPend
	on     bool
	marked map[uintptr]bool
	Cycles int
	Slots  int // scanned
}

type gcReg struct{ shadow []uintptr }

type gcPend struct {
	reg   *Region
	i     int
	typed bool
	site  uint32
}

// Watch makes the first word of every element of r a reference the collector follows.
func (s *Sim) Watch(r *Region) {
	if s.gc == nil {
		s.gc = &gcState{regs: map[*Region]*gcReg{}, cnt: map[uintptr]int{}, away: map[uintptr]bool{}, typed: map[uintptr]bool{},
			heap: map[uintptr]bool{}, moved: map[uintptr]uint32{}}
	}
	g := s.gc
	w := &gcReg{make([]uintptr, r.N)}
	for i := range w.shadow {
		v := r.word(i)
		w.shadow[i] = v
		if v != 0 {
			g.cnt[v]++
			g.heap[v] = false
		}
	}
	g.regs[r] = w
	g.order = append(g.order, r)
}

func (r *Region) word(i int) uintptr {
	return *(*uintptr)(unsafe.Add(r.p, uintptr(i)*r.size))
}

// shade marks the object v refers to.
func (g *gcState) shade(v uintptr) {
	if g.on && v != 0 {
		g.marked[v] = true
	}
}

// apply accounts for a change of a slot.
func (g *gcState) apply(old, v uintptr, typed bool, site uint32) {
	if old == v {
		return
	}
	if typed {
		g.shade(old)
		g.shade(v)
	} else if v != 0 {
		g.moved[v] = site
	}
	if old != 0 {
		if g.cnt[old]--; g.cnt[old] == 0 {
			g.away[old] = true
			if g.typed[old] || g.heap[old] {
				g.shade(old) // a root
			} else {
				g.moved[old] = site
			}
		}
	}
	if v != 0 {
		if g.cnt[v]++; g.cnt[v] == 1 {
			delete(g.away, v)
		}
		if !typed {
			g.typed[v] = false
		}
	}
}

// flush accounts for the writes announced since.
func (g *gcState) flush() {
	for _, p := range g.pend {
		w := g.regs[p.reg]
		v := p.reg.word(p.i)
		g.apply(w.shadow[p.i], v, p.typed, p.site)
		w.shadow[p.i] = v
	}
	g.pend = g.pend[:0]
}

// resync accounts for changes that code outside the library made: the collector saw them.
func (g *gcState) resync() {
	g.flush()
	for _, r := range g.order {
		sh := g.regs[r].shadow
		for i, o := range sh {
			if v := r.word(i); v != o {
				g.apply(o, v, true, 0)
				sh[i] = v
			}
		}
	}
}

var ptrCache = map[reflect.Type][]uintptr{}

// ptrWords lists the offsets of references in a value of type t.
func ptrWords(t reflect.Type) []uintptr {
	if t == ptrLast {
		return ptrLastW
	}
	l := ptrWords1(t)
	ptrLast, ptrLastW = t, l
	return l
}

var ptrLast reflect.Type
var ptrLastW []uintptr

func ptrWords1(t reflect.Type) []uintptr {
	if l, ok := ptrCache[t]; ok {
		return l
	}
	var l []uintptr
	switch t.Kind() {
	case reflect.Pointer, reflect.UnsafePointer, reflect.Chan, reflect.Map, reflect.Func, reflect.String, reflect.Slice:
		l = []uintptr{0}
	case reflect.Interface:
		l = []uintptr{0, unsafe.Sizeof(uintptr(0))}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			for _, o := range ptrWords(t.Field(i).Type) {
				l = append(l, t.Field(i).Offset+o)
			}
		}
	case reflect.Array:
		if e := ptrWords(t.Elem()); len(e) > 0 {
			for i := 0; i < t.Len() && i < 4096; i++ {
				for _, o := range e {
					l = append(l, uintptr(i)*t.Elem().Size()+o)
				}
			}
		}
	}
	ptrCache[t] = l
	return l
}

// read: the value at p was loaded into a variable of type t.
func (g *gcState) read(p unsafe.Pointer, t reflect.Type) {
	g.flush()
	for _, o := range ptrWords(t) {
		v := *(*uintptr)(unsafe.Add(p, o))
		if _, known := g.heap[v]; known {
			g.typed[v] = true
		}
	}
}

// write: the program is about to store a value of type t at p.
func (g *gcState) write(p unsafe.Pointer, t reflect.Type, site uint32) {
	g.flush()
	a := uintptr(p)
	end := a + t.Size()
	for _, r := range g.order {
		if end <= r.base || a >= r.end {
			continue
		}
		lo, hi := 0, int((end-r.base+r.size-1)/r.size)
		if a > r.base {
			lo = int((a - r.base) / r.size)
		}
		if hi > r.N {
			hi = r.N
		}
		for i := lo; i < hi; i++ {
			w := r.base + uintptr(i)*r.size // address of the reference
			if w < a || w >= end {
				continue
			}
			typed := false
			for _, o := range ptrWords(t) {
				typed = typed || a+o == w
			}
			g.pend = append(g.pend, gcPend{r, i, typed, site})
		}
		return
	}
	// other memory: whatever variables hold may be there from now on
	if len(ptrWords(t)) > 0 {
		for v := range g.away {
			if g.typed[v] {
				g.heap[v] = true
				g.shade(v)
			}
		}
	}
}

func typeOf[T any](*T) reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// Collect runs one mark phase as the current task. order: 0 forward, 1 backward, else
// a pseudo-random order of pieces of n slots, gap steps apart.
func (s *Sim) Collect(order int, n int, gap uint64, seed uint64) {
	g := s.gc
	if g == nil {
		return
	}
	type piece struct {
		r      *Region
		lo, hi int
	}
	var ps []piece
	for _, r := range g.order {
		for lo := 0; lo < r.N; lo += n {
			hi := lo + n
			if hi > r.N {
				hi = r.N
			}
			ps = append(ps, piece{r, lo, hi})
		}
	}
	switch order {
	case 0:
	case 1:
		for i, k := 0, len(ps)-1; i < k; i, k = i+1, k-1 {
			ps[i], ps[k] = ps[k], ps[i]
		}
	default:
		r := NewRNG(seed)
		for i := len(ps) - 1; i > 0; i-- {
			k := r.N(i + 1)
			ps[i], ps[k] = ps[k], ps[i]
		}
	}
	g.resync()
	g.on, g.marked = true, map[uintptr]bool{}
	for v := range g.away {
		if g.typed[v] || g.heap[v] {
			g.marked[v] = true // in a variable
		}
	}
	s.mix(77)
	for _, p := range ps {
		SleepUntil(s.step + s.off + gap)
		g.resync()
		for i := p.lo; i < p.hi; i++ {
			g.shade(p.r.word(i))
		}
		g.Slots += p.hi - p.lo
		if s.othersDone() {
			g.on = false // nothing happens any more
			return
		}
	}
	SleepUntil(s.step + s.off + gap)
	g.resync()
	g.on = false
	g.Cycles++
	s.mix(78)
	var lost []uintptr
	for v := range g.heap {
		if !g.marked[v] {
			lost = append(lost, v)
		}
	}
	if len(lost) > 0 {
		sort.Slice(lost, func(i, k int) bool { return lost[i] < lost[k] })
		v := lost[0]
		at := "no element at the moment, a variable of integer type only"
	find:
		for _, r := range g.order {
			for i := 0; i < r.N; i++ {
				if r.word(i) == v {
					at = fmt.Sprintf("%s[%d]", r.Name, i)
					break find
				}
			}
		}
		s.Report("gclost", fmt.Sprintf("a garbage collection during the run frees %d objects that elements refer to; one is held by %s, last moved unseen by the collector at %s",
			len(lost), at, siteName(g.moved[v])))
	}
}

func (s *Sim) othersDone() bool {
	for _, t := range s.tasks {
		if t != s.cur && t.st != tDone {
			return false
		}
	}
	return true
}

// GCCycles is the number of mark phases that ran to their end and the slots scanned.
func (s *Sim) GCCycles() (int, int) {
	if s.gc == nil {
		return 0, 0
	}
	return s.gc.Cycles, s.gc.Slots
}
