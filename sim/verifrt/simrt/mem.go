package simrt

import (
	"fmt"
	"runtime"
	"unsafe"
)

// Region is a registered backing array of a collection.
type Region struct {
	Name  string
	p     unsafe.Pointer
	base  uintptr
	end   uintptr
	size  uintptr
	N     int
	cells []cell
	sim   *Sim
}

// AddRegion registers n elements of the given size starting at p.
func (s *Sim) AddRegion(name string, p unsafe.Pointer, size uintptr, n int) *Region {
	r := &Region{Name: name, p: p, base: uintptr(p), size: size, N: n, end: uintptr(p) + size*uintptr(n), cells: make([]cell, n), sim: s}
	s.Regions = append(s.Regions, r)
	return r
}

type epoch uint64 // task<<32 | clock

type cell struct {
	w, r   epoch
	ws, rs uint32
	rv     []uint32 // clocks of reads by several tasks
	aw, ar []uint32 // atomic writes and reads, per task
	aws    uint32
}

func ahead(vc []uint32, e epoch) bool { // e not known to vc
	t := int(e >> 32)
	return e != 0 && (t >= len(vc) || vc[t] < uint32(e))
}

func aheadV(vc, v []uint32) int {
	for i, c := range v {
		if c > 0 && (i >= len(vc) || vc[i] < c) {
			return i
		}
	}
	return -1
}

var sink unsafe.Pointer
var sinkOn bool

func (s *Sim) race(what string, a, b uint32, t *Task, other int, where string) {
	key := fmt.Sprintf("%s|%s", siteName(a), siteName(b))
	if c := t.call; c != nil && c.Query && s.violSeen["query-race"] == 0 {
		s.Report("query-race", fmt.Sprintf("%s: %s on %s: goroutine %d at %s and goroutine %d at %s are not ordered by synchronization",
			c.Desc, what, where, other, siteName(b), t.ID, siteName(a)))
	}
	s.violSeen["race"]++
	if s.violSeen["race:"+key]++; s.violSeen["race:"+key] > 1 || s.violSeen["race"] > 2000 {
		return
	}
	n := 0
	for _, v := range s.viol {
		if v.Class == "race" {
			n++
		}
	}
	if n < 4 {
		s.viol = append(s.viol, Violation{"race", fmt.Sprintf("%s on %s: goroutine %d at %s and goroutine %d at %s are not ordered by synchronization",
			what, where, other, siteName(b), t.ID, siteName(a)), s.step})
	}
}

// access performs scheduling, containment and race checks for one memory access.
func (s *Sim) access(p unsafe.Pointer, site uint32, write bool) {
	if sinkOn {
		sink = p
	}
	s.SiteHit[site>>6] |= 1 << (site & 63)
	s.yield(site)
	s.record(uintptr(p), site, write)
}

func (s *Sim) record(a uintptr, site uint32, write bool) {
	t := s.cur
	var c *cell
	reg := s.lastReg
	if reg == nil || a < reg.base || a >= reg.end {
		reg = nil
		for _, r := range s.Regions {
			if a >= r.base && a < r.end {
				reg = r
				s.lastReg = r
				break
			}
		}
	}
	if reg != nil {
		i := int((a - reg.base) / reg.size)
		c = &reg.cells[i]
		s.touch(t, reg, i, site, write)
	} else {
		c = s.cells[a]
		if c == nil {
			c = new(cell)
			s.cells[a] = c
		}
	}
	vc := t.vc
	if write {
		if ahead(vc, c.w) {
			s.race("write-write race", site, c.ws, t, int(c.w>>32), s.where(reg, a))
		}
		if ahead(vc, c.r) {
			s.race("read-write race", site, c.rs, t, int(c.r>>32), s.where(reg, a))
		}
		if c.rv != nil {
			if k := aheadV(vc, c.rv); k >= 0 {
				s.race("read-write race", site, c.rs, t, k, s.where(reg, a))
			}
			c.rv = nil
		}
		if c.aw != nil || c.ar != nil {
			if k := aheadV(vc, c.aw); k >= 0 {
				s.race("atomic write vs plain write race", site, c.aws, t, k, s.where(reg, a))
			}
			if k := aheadV(vc, c.ar); k >= 0 {
				s.race("atomic read vs plain write race", site, c.aws, t, k, s.where(reg, a))
			}
		}
		c.w = epoch(t.ID)<<32 | epoch(vc[t.ID])
		c.ws = site
		c.r = 0
		return
	}
	if ahead(vc, c.w) {
		s.race("write-read race", site, c.ws, t, int(c.w>>32), s.where(reg, a))
	}
	if c.aw != nil {
		if k := aheadV(vc, c.aw); k >= 0 {
			s.race("atomic write vs plain read race", site, c.aws, t, k, s.where(reg, a))
		}
	}
	e := epoch(t.ID)<<32 | epoch(vc[t.ID])
	if c.r == e {
		return
	}
	if c.rv == nil && (c.r == 0 || int(c.r>>32) == t.ID || !ahead(vc, c.r)) {
		c.r, c.rs = e, site
		return
	}
	if c.rv == nil {
		o := int(c.r >> 32)
		n := o
		if t.ID > n {
			n = t.ID
		}
		c.rv = make([]uint32, n+1)
		c.rv[o] = uint32(c.r)
		c.r = 0
	}
	c.rv = setClock(c.rv, t.ID, vc[t.ID])
	c.rs = site
}

func setClock(v []uint32, i int, c uint32) []uint32 {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i] = c
	return v
}

func (s *Sim) where(r *Region, a uintptr) string {
	if r != nil {
		return fmt.Sprintf("%s[%d]", r.Name, (a-r.base)/r.size)
	}
	return "internal shared memory"
}

// touch checks an access to element i of a collection against the call it belongs to.
func (s *Sim) touch(t *Task, reg *Region, i int, site uint32, write bool) {
	c := t.call
	if c == nil {
		return
	}
	if c.Region != reg || i < c.Lo || i >= c.Hi {
		s.Report("outside", fmt.Sprintf("%s %s element %d of %s, outside its [%d,%d) of %s, at %s", c.Desc, rw(write), i, reg.Name, c.Lo, c.Hi, regName(c.Region), siteName(site)))
		return
	}
	if write && c.Query {
		s.Report("query-effect", fmt.Sprintf("query %s wrote element %d at %s", c.Desc, i-c.Lo, siteName(site)))
	}
	if c.Returned && t != c.Caller && !c.Panicked {
		s.Report("late", fmt.Sprintf("goroutine %d %s element %d after %s had returned, at %s", t.ID, rw(write), i-c.Lo, c.Desc, siteName(site)))
	}
	t.LastTouch = s.step
	if s.OnTouch != nil {
		s.OnTouch(t, i, write)
	}
	if t == c.Caller {
		c.CallerLast = s.step
	} else {
		t.Touched++
		if i < t.MinIdx {
			t.MinIdx = i
		}
		if i > t.MaxIdx {
			t.MaxIdx = i
		}
	}
}

func regName(r *Region) string {
	if r == nil {
		return "(none)"
	}
	return r.Name
}

func rw(w bool) string {
	if w {
		return "wrote"
	}
	return "read"
}

// Rd reads *p.
func Rd[T any](site uint32, p *T) T {
	s := S
	if s == nil {
		return *p
	}
	s.access(unsafe.Pointer(p), site, false)
	v := *p
	if s.gc != nil {
		s.gc.read(unsafe.Pointer(p), typeOf(p))
	}
	s.step++
	if s.step >= s.next {
		s.slow(site)
	}
	return v
}

// W announces a write to *p, which the caller performs next.
func W[T any](site uint32, p *T) *T {
	s := S
	if s == nil {
		return p
	}
	s.access(unsafe.Pointer(p), site, true)
	if s.gc != nil {
		s.gc.write(unsafe.Pointer(p), typeOf(p), site)
	}
	return p
}

// RdS reads a struct or array.
func RdS[T any](site uint32, p *T) T {
	s := S
	if s == nil {
		return *p
	}
	if sinkOn {
		sink = unsafe.Pointer(p)
	}
	s.yield(site)
	s.leaves(p, unsafe.Pointer(p), site, false)
	if s.gc != nil {
		s.gc.read(unsafe.Pointer(p), typeOf(p))
	}
	return *p
}

// WS announces a write of a struct or array.
func WS[T any](site uint32, p *T) *T {
	s := S
	if s == nil {
		return p
	}
	if sinkOn {
		sink = unsafe.Pointer(p)
	}
	s.yield(site)
	s.leaves(p, unsafe.Pointer(p), site, true)
	if s.gc != nil {
		s.gc.write(unsafe.Pointer(p), typeOf(p), site)
	}
	return p
}

// Touch records a read without a value.
func Touch[T any](site uint32, p *T) {
	if s := S; s != nil {
		s.access(unsafe.Pointer(p), site, false)
	}
}

// Copy is the builtin copy.
func Copy[D ~[]E, B ~[]E, E any](site uint32, dst D, src B) int {
	s := S
	if s == nil {
		return copy(dst, src)
	}
	n := len(src)
	if len(dst) < n {
		n = len(dst)
	}
	if n == 0 {
		return 0
	}
	back := uintptr(unsafe.Pointer(&src[0])) < uintptr(unsafe.Pointer(&dst[0]))
	for k := 0; k < n; k++ {
		i := k
		if back {
			i = n - 1 - k
		}
		v := Rd(site, &src[i])
		*W(site, &dst[i]) = v
	}
	return n
}

// Clear is the builtin clear for slices.
func Clear[D ~[]E, E any](site uint32, d D) {
	var z E
	for i := range d {
		*W(site, &d[i]) = z
	}
}

// Append is the builtin append.
func Append[D ~[]E, E any](site uint32, d D, xs ...E) D {
	s := S
	if s == nil {
		return append(d, xs...)
	}
	n := len(d)
	if n+len(xs) <= cap(d) {
		d = d[:n+len(xs)]
		for i := range xs {
			v := Rd(site, &xs[i])
			*W(site, &d[n+i]) = v
		}
		return d
	}
	for i := range d {
		Rd(site, &d[i])
	}
	for i := range xs {
		Rd(site, &xs[i])
	}
	nd := append(d, xs...)
	var z E
	s.alloc(site, uintptr(cap(nd))*unsafe.Sizeof(z))
	return nd
}

// MadeSlice accounts for make([]T).
func MadeSlice[D ~[]E, E any](site uint32, d D) D {
	if s := S; s != nil {
		var z E
		s.alloc(site, uintptr(cap(d))*unsafe.Sizeof(z))
		_ = site
	}
	return d
}

// ExtSlice accounts for a slice made by another package.
func ExtSlice[D ~[]E, E any](site uint32, d D) D {
	s := S
	if s == nil || cap(d) == 0 {
		return d
	}
	d1 := d[:1]
	a := uintptr(unsafe.Pointer(&d1[0]))
	for _, r := range s.Regions {
		if a >= r.base && a < r.end {
			return d
		}
	}
	for _, b := range s.payload {
		if a >= b[0] && a < b[1] {
			return d
		}
	}
	var z E
	s.alloc(site, uintptr(cap(d))*unsafe.Sizeof(z))
	return d
}

// AddPayload registers memory that elements point to.
func (s *Sim) AddPayload(b []byte) {
	if len(b) > 0 {
		a := uintptr(unsafe.Pointer(&b[0]))
		s.payload = append(s.payload, [2]uintptr{a, a + uintptr(len(b))})
	}
}

// ElemSize is the size of an element.
func (r *Region) ElemSize() uintptr { return r.size }

func (s *Sim) alloc(site uint32, n uintptr) {
	if c := s.cur.call; c != nil {
		c.AllocBytes += uint64(n)
		if uint64(n) > c.MaxAlloc {
			c.MaxAlloc = uint64(n)
		}
	}
	if s.aborting {
		runtime.Goexit()
	}
}

// MapR and MapW record access to a map as a whole.
func MapR[M ~map[K]V, K comparable, V any](site uint32, m M) M {
	if s := S; s != nil && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, false)
	}
	return m
}

// MapW records a write to a map.
func MapW[M ~map[K]V, K comparable, V any](site uint32, m M) M {
	if s := S; s != nil && m != nil {
		s.access(*(*unsafe.Pointer)(unsafe.Pointer(&m)), site, true)
	}
	return m
}
