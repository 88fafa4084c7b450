package main

import (
	"fmt"
	"math"
	"sort"
	"syscall"
	"unsafe"

	"verifrt/simrt"
)

// Coll describes a collection.
type Coll struct {
	Typ  string   `json:"typ"`
	N    int      `json:"n"`
	Pat  string   `json:"pat,omitempty"`
	Seed uint64   `json:"seed,omitempty"`
	Mod  int      `json:"mod,omitempty"`  // pattern parameter
	Off  uint64   `json:"off,omitempty"`  // added to every value
	Nan  int      `json:"nan,omitempty"`  // per mille of NaNs
	Spec int      `json:"spec,omitempty"` // per mille of infinities and signed zeros
	Pre  int      `json:"pre,omitempty"`  // common prefix length of strings
	Vals []uint64 `json:"vals,omitempty"` // explicit raw values, after minimisation
}

var patterns = []string{"rand", "rand", "rand", "few", "few", "asc", "desc", "organ", "saw", "equal", "two", "geo", "nearly", "outl", "equi", "perm", "perm", "half", "runs", "rot", "blocks", "blocks", "samp", "late"}

// pattern produces integers with the given structure.
func pattern(c *Coll, n int) []int64 {
	r := simrt.NewRNG(c.Seed)
	v := make([]int64, n)
	m := c.Mod
	if m < 1 {
		m = 1
	}
	switch c.Pat {
	case "rand":
		for i := range v {
			v[i] = int64(r.U64())
		}
	case "few":
		for i := range v {
			v[i] = int64(r.N(m + 1))
		}
	case "asc":
		for i := range v {
			v[i] = int64(i / m)
		}
	case "desc":
		for i := range v {
			v[i] = int64((n - i) / m)
		}
	case "organ":
		for i := range v {
			v[i] = int64(i)
			if i > n/2 {
				v[i] = int64(n - i)
			}
		}
	case "saw":
		for i := range v {
			v[i] = int64(i % (m + 1))
		}
	case "equal":
	case "two":
		for i := range v {
			v[i] = int64(i & 1)
		}
	case "geo":
		for i := range v {
			v[i] = int64(1) << uint(r.N(62))
			if m&1 == 0 && r.P(500) {
				v[i] = -v[i]
			}
		}
	case "nearly":
		for i := range v {
			v[i] = int64(i)
		}
		for k := 0; k < m && n > 0; k++ {
			i, j := r.N(n), r.N(n)
			v[i], v[j] = v[j], v[i]
		}
	case "dip": // one element less than its predecessor
		for i := range v {
			v[i] = int64(i / m)
		}
		if n < 2 {
			break
		}
		i := 1 + r.N(n-1)
		switch r.N(4) {
		case 0: // next to a multiple of some power of two
			b := 1 << uint(r.N(14))
			i = (i+b-1)/b*b + r.N(3) - 1
		case 1: // near an end
			if i = 1 + r.N(4); r.P(500) {
				i = n - i
			}
		case 2: // near a simple fraction
			i = n*r.N(9)/8 + r.N(3) - 1
		}
		i = max(1, min(i, n-1))
		switch {
		case r.P(500): // by one
			for k := i; k < n && v[k] >= v[i-1]; k++ {
				v[k] = v[i-1] - 1
			}
		case r.P(500):
			for k := i; k < n; k++ {
				v[k] -= v[i-1] + int64(r.N(3))
			}
		default:
			v[i] = -1
		}
	case "outl":
		for i := range v {
			v[i] = int64(r.N(10))
		}
		for k := 0; k < m && n > 0; k++ {
			v[r.N(n)] = math.MaxInt64 - int64(r.N(3))
			v[r.N(n)] = math.MinInt64 + int64(r.N(3))
		}
	case "equi": // small values at equidistant places
		st := 1 + m%17
		for i := range v {
			v[i] = int64(1000 + r.N(1000))
			if (i-n/16)%(n/st+1) == 0 || i%(n/8+1) < 2 {
				v[i] = int64(r.N(4))
			}
		}
	case "half": // sorted first half, random rest
		for i := range v {
			v[i] = int64(i)
			if i > n/2 {
				v[i] = int64(r.N(n))
			}
		}
	case "runs":
		for i := range v {
			v[i] = int64(i%(m+1)) + int64(r.N(3))
		}
	case "blocks": // neighbouring blocks on different levels
		k := []int{2, 3, 4, 4, 4, 5, 8, 8, 16}[m%9]
		noise := 1 + m%13*(m%3)
		var lev [17]int64
		for i := range lev {
			lev[i] = int64(r.N(1+m%5)) * 1000
		}
		for i := range v {
			v[i] = lev[i*k/n] + int64(r.N(noise))
			if noise > 20 && r.N(n) < 2 {
				v[i] = int64(r.N(5000)) - 500
			}
		}
	case "samp": // extremes where pivots are looked for
		k := 3 + m%6
		d := 1 + m/6%3
		for i := range v {
			v[i] = 1000 + int64(r.N(n))
		}
		for j := 0; j < k && n > 0; j++ {
			at := (2*j + 1) * n / (2 * k)
			x := int64(r.N(3))
			if m&1 == 0 {
				x = int64(1000+n) + x
			}
			for i := at - d; i <= at+d; i++ {
				if i >= 0 && i < n {
					v[i] = x
				}
			}
		}
	case "late": // ascending, a few values much too early or late
		for i := range v {
			v[i] = int64(i) * 4
		}
		for k := 1 + m%4; k > 0 && n > 0; k-- {
			v[r.N(n)] = int64(r.N(4*n+8)) - 4
		}
	case "rot":
		for i := range v {
			v[i] = int64((i + m) % n)
		}
	default: // perm
		for i := range v {
			v[i] = int64(i)
		}
		for i := n - 1; i > 0; i-- {
			j := r.N(i + 1)
			v[i], v[j] = v[j], v[i]
		}
	}
	return v
}

// raws yields the raw value of every element.
func raws(c *Coll) []uint64 {
	if c.Vals != nil {
		return c.Vals
	}
	v := pattern(c, c.N)
	r := simrt.NewRNG(c.Seed ^ 0xabcdef)
	out := make([]uint64, len(v))
	wide := c.Pat == "rand" || c.Pat == "geo" || c.Pat == "outl"
	for i, x := range v {
		u := uint64(x)
		switch c.Typ {
		case "i32", "u32", "ni32":
			if wide {
				u = uint64(uint32(x >> 32))
			}
			u = uint64(uint32(u) + uint32(c.Off))
		case "f32":
			f := float32(x)
			switch c.Mod % 5 {
			case 1:
				f *= 1e-42
			case 2:
				f = float32(float64(x) / 9.3e18 * math.MaxFloat32)
			case 3:
				f *= 0.1
			case 4:
				if wide {
					f = math.Float32frombits(uint32(u >> 32))
				}
			}
			if f != f {
				f = 1
			}
			if c.Spec > 0 && r.P(c.Spec) {
				f = []float32{float32(math.Inf(1)), float32(math.Inf(-1)), 0, float32(math.Copysign(0, -1)), math.MaxFloat32, -math.MaxFloat32}[r.N(6)]
			}
			u = uint64(math.Float32bits(f))
			if c.Nan > 0 && r.P(c.Nan) {
				u = uint64(0x7f800001+uint32(r.N(0x7ffffe))) | uint64(r.N(2))<<31
			}
		case "f64", "nf64":
			f := float64(x)
			switch c.Mod % 5 {
			case 1:
				f *= 1e-322
			case 2:
				f = float64(x) / 9.3e18 * math.MaxFloat64
			case 3:
				f *= 0.1
			case 4:
				if wide {
					f = math.Float64frombits(u)
				}
			}
			if f != f {
				f = 1
			}
			if c.Spec > 0 && r.P(c.Spec) {
				f = []float64{math.Inf(1), math.Inf(-1), 0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64}[r.N(6)]
			}
			u = math.Float64bits(f)
			if c.Nan > 0 && r.P(c.Nan) {
				u = 0x7ff0000000000001 + r.U64()%0xffffffffffffe | uint64(r.N(2))<<63
			}
		case "str", "byt":
			if !wide {
				u = uint64(x) + 1<<63>>uint(c.Mod%60)
			}
		case "lsw":
			if wide {
				u >>= 32
			}
			u &= 0xffffffff
		default:
			u += c.Off
		}
		out[i] = u
	}
	return out
}

type w3 [3]uint64

// coll is a collection in memory.
type coll struct {
	d     *Coll
	n     int
	base  unsafe.Pointer
	esz   uintptr
	slice func(lo, hi int) any
	// order compares elements i and k: negative, zero, positive; ok is false for unordered (NaN)
	less  func(i, k int) bool
	isNaN func(i int) bool
	reg   *simrt.Region
	keep  []any
	orig  []w3
	lswv  []uint64
	pay   []byte
	used  []bool
}

func (c *coll) raw(i int) (w w3) {
	p := unsafe.Add(c.base, uintptr(i)*c.esz)
	switch c.esz {
	case 4:
		w[0] = uint64(*(*uint32)(p))
	case 8:
		w[0] = *(*uint64)(p)
	default:
		for k := uintptr(0); k < c.esz/ptrSize; k++ {
			w[k] = uint64(*(*uintptr)(unsafe.Add(p, k*ptrSize)))
		}
	}
	return
}

const ptrSize = unsafe.Sizeof(uintptr(0))

func (c *coll) snap(lo, hi int) []w3 {
	o := make([]w3, hi-lo)
	for i := range o {
		o[i] = c.raw(lo + i)
	}
	return o
}

func lessW(a, b w3) bool {
	if a[0] != b[0] {
		return a[0] < b[0]
	}
	if a[1] != b[1] {
		return a[1] < b[1]
	}
	return a[2] < b[2]
}

// samePerm tells whether a and b hold the same elements bit for bit.
func samePerm(a, b []w3) (bool, string) {
	if len(a) != len(b) {
		return false, "length"
	}
	a = append([]w3(nil), a...)
	b = append([]w3(nil), b...)
	sort.Slice(a, func(i, k int) bool { return lessW(a[i], a[k]) })
	sort.Slice(b, func(i, k int) bool { return lessW(b[i], b[k]) })
	for i := range a {
		if a[i] != b[i] {
			return false, fmt.Sprintf("rank %d: %x before, %x after", i, a[i], b[i])
		}
	}
	return true, ""
}

type myI32 int32
type myF64s []float64

func mk[T any](c *coll, n int, f func(i int) T) []T {
	s := make([]T, n, n+1)
	for i := range s {
		s[i] = f(i)
	}
	s1 := s[: n+1 : n+1]
	var z T
	c.base, c.esz = unsafe.Pointer(&s1[0]), unsafe.Sizeof(z)
	c.keep = append(c.keep, s)
	c.slice = func(lo, hi int) any { return s[lo:hi] }
	return s
}

func ord[T int32 | int64 | uint32 | uint64 | int | uint | uintptr | float32 | float64 | string | myI32](c *coll, s []T) {
	c.less = func(i, k int) bool { return s[i] < s[k] }
}

const lenArena = 1 << 14

var wildArea []byte

// wild is a large part of the address space that takes no memory: a power of two.
func wild() []byte {
	if wildArea == nil {
		size := 1 << 28
		if ptrSize == 8 {
			size <<= 8
		}
		b, err := syscall.Mmap(-1, 0, size, syscall.PROT_READ, syscall.MAP_PRIVATE|syscall.MAP_ANON|syscall.MAP_NORESERVE)
		if err != nil {
			b = make([]byte, 1<<20)
		}
		wildArea = b
	}
	return wildArea
}

func newColl(d *Coll) *coll {
	c := &coll{d: d}
	rs := raws(d)
	n := len(rs)
	c.n = n
	c.isNaN = func(int) bool { return false }
	switch d.Typ {
	case "i32":
		ord(c, mk(c, n, func(i int) int32 { return int32(rs[i]) }))
	case "ni32":
		ord(c, mk(c, n, func(i int) myI32 { return myI32(rs[i]) }))
	case "i64":
		ord(c, mk(c, n, func(i int) int64 { return int64(rs[i]) }))
	case "u32":
		ord(c, mk(c, n, func(i int) uint32 { return uint32(rs[i]) }))
	case "u64":
		ord(c, mk(c, n, func(i int) uint64 { return rs[i] }))
	case "int":
		ord(c, mk(c, n, func(i int) int { return int(rs[i]) }))
	case "uint":
		ord(c, mk(c, n, func(i int) uint { return uint(rs[i]) }))
	case "uptr":
		ord(c, mk(c, n, func(i int) uintptr { return uintptr(rs[i]) }))
	case "f32":
		s := mk(c, n, func(i int) float32 { return math.Float32frombits(uint32(rs[i])) })
		// bits are stored as such: no arithmetic that could quieten a NaN
		u := unsafe.Slice((*uint32)(c.base), n)
		for i := range u {
			u[i] = uint32(rs[i])
		}
		ord(c, s)
		c.isNaN = func(i int) bool { return s[i] != s[i] }
	case "f64", "nf64":
		s := mk(c, n, func(i int) float64 { return 0 })
		u := unsafe.Slice((*uint64)(c.base), n)
		for i := range u {
			u[i] = rs[i]
		}
		ord(c, s)
		c.isNaN = func(i int) bool { return s[i] != s[i] }
		if d.Typ == "nf64" {
			c.slice = func(lo, hi int) any { return myF64s(s[lo:hi]) }
		}
	case "ptr", "uns":
		mask, shift, none := uint64(0xffff), uint64(0), d.Seed&24 == 0
		if a := wild(); d.Seed&6 == 0 && len(a) > 1<<20 { // addresses far apart
			c.pay, mask, shift = a, uint64(len(a)-1), uint64(d.Mod)%20
		} else {
			c.pay = make([]byte, 1<<16)
		}
		p0 := unsafe.Pointer(&c.pay[0])
		at := func(i int) unsafe.Pointer {
			o := rs[i] << shift & mask
			if none && o>>shift < 2 {
				return nil
			}
			return unsafe.Add(p0, o)
		}
		if d.Typ == "ptr" {
			s := mk(c, n, func(i int) *byte { return (*byte)(at(i)) })
			c.less = func(i, k int) bool { return uintptr(unsafe.Pointer(s[i])) < uintptr(unsafe.Pointer(s[k])) }
		} else {
			s := mk(c, n, func(i int) unsafe.Pointer { return at(i) })
			c.less = func(i, k int) bool { return uintptr(s[i]) < uintptr(s[k]) }
		}
	case "str":
		pos := c.strings(rs)
		s := mk(c, n, func(i int) string { return pos.str(i) })
		ord(c, s)
	case "byt":
		pos := c.strings(rs)
		s := mk(c, n, func(i int) []byte { return pos.byt(i) })
		c.less = func(i, k int) bool { return string(s[i]) < string(s[k]) }
	case "lstr":
		c.pay = make([]byte, lenArena+n+1)
		s := mk(c, n, func(i int) string { return unsafe.String(&c.pay[i], c.length(rs[i])) })
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lhuge":
		a := wild()
		s := mk(c, n, func(i int) string {
			return unsafe.String(&a[i], rs[i]<<(uint64(d.Mod)%30)%uint64(len(a)-n))
		})
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lbyt":
		c.pay = make([]byte, lenArena+n+1)
		s := mk(c, n, func(i int) []byte {
			l := c.length(rs[i])
			if l == 0 && i&1 == 0 {
				return nil
			}
			if d.Seed&3 == 0 {
				return c.pay[i : i+l : i+lenArena]
			}
			return c.pay[i : i+l : i+l+(lenArena-l)/(1+i%3)]
		})
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lemp":
		z := make([]struct{}, math.MaxInt)
		s := mk(c, n, func(i int) []struct{} { return z[: rs[i]&math.MaxInt : math.MaxInt] })
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lu64":
		a := make([]uint64, 2049+n)
		s := mk(c, n, func(i int) []uint64 { return a[i : i+c.length(rs[i])%2049] })
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lbig":
		a := make([][48]byte, 257+n)
		s := mk(c, n, func(i int) [][48]byte { return a[i : i+c.length(rs[i])%257] })
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lss":
		a := make([]string, 1025+n)
		s := mk(c, n, func(i int) []string { return a[i : i+c.length(rs[i])%1025] })
		c.less = func(i, k int) bool { return len(s[i]) < len(s[k]) }
	case "lsw":
		s := mk(c, n, func(i int) uint64 { return rs[i]<<32 | uint64(uint32(i)) })
		c.lswv = s
		c.less = func(i, k int) bool { return s[i]>>32 < s[k]>>32 }
	default:
		panic("harness: type " + d.Typ)
	}
	c.orig = c.snap(0, n)
	c.used = make([]bool, n)
	return c
}

func (c *coll) length(r uint64) int {
	m := c.d.Mod
	if m < 2 {
		m = 2
	}
	if c.d.Pat == "rand" || c.d.Pat == "geo" || m > lenArena {
		m = lenArena
	}
	if c.d.Pat == "perm" || c.d.Pat == "dip" || c.d.Pat == "asc" || c.d.Pat == "desc" {
		m = lenArena
	}
	return int(r % uint64(m))
}

type strPos struct {
	a      []byte
	at, ln []int
	even   bool // capacities are the same
}

func (p *strPos) str(i int) string {
	if p.ln[i] == 0 && i&1 == 0 {
		return ""
	}
	return unsafe.String(&p.a[p.at[i]], p.ln[i])
}

func (p *strPos) byt(i int) []byte {
	if p.ln[i] == 0 && i%3 == 0 {
		return nil
	}
	b := p.a[p.at[i]:]
	c := p.ln[i] + i%3
	if p.even {
		c = max(c, 96)
	}
	if c > len(b) {
		c = len(b)
	}
	return b[:p.ln[i]:c]
}

// strings lays out the contents; raw values map to strings monotonically.
func (c *coll) strings(rs []uint64) *strPos {
	p := &strPos{even: c.d.Seed&3 == 0, at: make([]int, len(rs)), ln: make([]int, len(rs))}
	var known map[string]int // contents that can be shared
	if c.d.Seed&12 == 0 && c.d.Pre < 10 && len(rs) < 20000 {
		known = map[string]int{}
	}
	for i, r := range rs {
		p.at[i] = len(p.a)
		if r != 0 {
			for k := 0; k < c.d.Pre; k++ {
				p.a = append(p.a, 'p')
			}
			for ; r != 0; r <<= 8 {
				p.a = append(p.a, byte(r>>56))
			}
		}
		if c.d.Pre > 2 && c.d.Mod%3 == 0 { // zeros at the end make a difference
			for k := rs[i] >> 3 % 4; k > 0; k-- {
				p.a = append(p.a, 0)
			}
		}
		p.ln[i] = len(p.a) - p.at[i]
		if known != nil && p.ln[i] > 0 {
			v := string(p.a[p.at[i]:])
			if k, ok := known[v]; ok {
				p.a = p.a[:p.at[i]]
				p.at[i] = k
				continue
			}
			for l := range v {
				known[v[:l+1]] = p.at[i]
			}
		}
		p.a = append(p.a, 0, 0)
	}
	p.a = append(p.a, 0)
	c.keep = append(c.keep, p.a)
	c.pay = p.a
	return p
}

// unsorted returns a position in [lo,hi) that violates ascending order, or -1. nan is
// the NaN option: 1 large, -1 small.
func (c *coll) unsorted(lo, hi int, nan int) int {
	for i := lo + 1; i < hi; i++ {
		a, b := c.isNaN(i-1), c.isNaN(i)
		switch {
		case a && b:
		case a && nan > 0, b && nan < 0:
			return i
		case a || b:
		case c.less(i, i-1):
			return i
		}
	}
	return -1
}

func (c *coll) ptr(i int) unsafe.Pointer { return unsafe.Add(c.base, uintptr(i)*c.esz) }
