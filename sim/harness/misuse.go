package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"time"
	"unsafe"

	"github.com/jfcg/sorty/v2"
	"verifrt/simrt"
)

// The four calls that take an argument of any type, given every kind of argument.

var anyFuncs = []string{"SortSlice", "IsSortedSlice", "SortLen", "IsSortedLen"}

type (
	nInt    int
	nI64    int64
	nU32    uint32
	nF32    float32
	nStr    string
	nPtr    *int
	nBytes  []byte
	nInts   []int
	nStrs   []string
	nF64s   []float64
	nPtrs   []*string
	nSlices [][]int32
	nByteSl [][]byte
	nArr    [3]int
	pair    struct{ a, b int }
	holder  struct{ S []int }
	one     struct{ x int64 }

	// types with methods
	mInt   int
	mI8    int8
	mI32   int32
	mU     uint
	mU16   uint16
	mU32   uint32
	mU64   uint64
	mUptr  uintptr
	mF32   float32
	mF64   float64
	mStr   string
	mByte  byte
	mBytes []byte
	mInts  []int
	mStrs  []string
	mUns   unsafe.Pointer
	mBool  bool
	mPair  struct{ a, b int }
)

func (mInt) String() string        { return "" }
func (x mInt) Less(y mInt) bool    { return x > y }
func (mI8) String() string         { return "" }
func (mI32) String() string        { return "" }
func (*mU) Error() string          { return "" }
func (mU16) Error() string         { return "" }
func (mU32) Error() string         { return "" }
func (mU64) Len() int              { return 0 }
func (mUptr) Get() uintptr         { return 0 }
func (mF32) IsNaN() bool           { return true }
func (mF64) Compare(mF64) int      { return 0 }
func (mStr) String() string        { return "" }
func (mStr) Len() int              { return 0 }
func (mByte) String() string       { return "" }
func (mBytes) String() string      { return "" }
func (x mBytes) Len() int          { return -len(x) }
func (x mInts) Len() int           { return len(x) }
func (x mInts) Less(i, k int) bool { return x[i] > x[k] }
func (x mInts) Swap(i, k int)      { x[i], x[k] = x[k], x[i] }
func (*mStrs) Sort()               {}
func (mBool) String() string       { return "" }
func (*mPair) Less(*mPair) bool    { return false }

type list[T any] []T

func typeOf[T any]() reflect.Type { return reflect.TypeOf((*T)(nil)).Elem() }

// argTypes lists the types of arguments; nil stands for the nil interface.
var argTypes = func() []reflect.Type {
	basic := []reflect.Type{
		typeOf[bool](), typeOf[int](), typeOf[int8](), typeOf[int16](), typeOf[int32](), typeOf[int64](),
		typeOf[uint](), typeOf[uint8](), typeOf[uint16](), typeOf[uint32](), typeOf[uint64](), typeOf[uintptr](),
		typeOf[float32](), typeOf[float64](), typeOf[complex64](), typeOf[complex128](), typeOf[string](), typeOf[unsafe.Pointer](),
		typeOf[*int](), typeOf[*struct{}](), typeOf[**string](), typeOf[*[]int](), typeOf[struct{}](), typeOf[pair](), typeOf[one](), typeOf[holder](),
		typeOf[any](), typeOf[error](), typeOf[func()](), typeOf[func(int) bool](), typeOf[map[int]int](), typeOf[chan int](), typeOf[<-chan string](),
		typeOf[[2]int](), typeOf[[1]int64](), typeOf[[0]byte](), typeOf[[4]float32](),
		typeOf[nInt](), typeOf[nI64](), typeOf[nU32](), typeOf[nF32](), typeOf[nStr](), typeOf[nPtr](), typeOf[nArr](),
		typeOf[nBytes](), typeOf[nInts](), typeOf[nStrs](), typeOf[fmt.Stringer](), typeOf[reflect.Kind](),
		typeOf[mInt](), typeOf[mI8](), typeOf[mI32](), typeOf[mU](), typeOf[mU16](), typeOf[mU32](), typeOf[mU64](), typeOf[mUptr](), typeOf[mF32](), typeOf[mF64](),
		typeOf[mStr](), typeOf[mByte](), typeOf[mBytes](), typeOf[mInts](), typeOf[mStrs](), typeOf[mUns](), typeOf[mBool](), typeOf[mPair](),
		typeOf[time.Duration](), typeOf[time.Month](), typeOf[reflect.Value](), typeOf[sync.Mutex](), typeOf[atomic.Uint64](),
	}
	out := []reflect.Type{nil}
	for _, t := range basic {
		out = append(out, t, reflect.PointerTo(t), reflect.ArrayOf(3, t), reflect.SliceOf(t), reflect.SliceOf(t), reflect.SliceOf(t),
			reflect.SliceOf(reflect.SliceOf(t)), reflect.SliceOf(reflect.SliceOf(reflect.SliceOf(t))), reflect.SliceOf(reflect.ArrayOf(1, t)),
			reflect.SliceOf(reflect.PointerTo(t)), reflect.PointerTo(reflect.SliceOf(t)), reflect.MapOf(typeOf[int](), t), reflect.ChanOf(reflect.BothDir, t),
			reflect.PointerTo(reflect.ArrayOf(3, t)), reflect.SliceOf(reflect.MapOf(typeOf[int](), t)), reflect.SliceOf(reflect.ChanOf(reflect.BothDir, t)))
	}
	out = append(out, typeOf[nStrs](), typeOf[nF64s](), typeOf[nPtrs](), typeOf[nSlices](), typeOf[nByteSl](), typeOf[myF64s](), typeOf[[]myI32](),
		typeOf[nInts](), typeOf[nByteSl](), typeOf[nSlices](), typeOf[nPtrs](),
		typeOf[mInts](), typeOf[mStrs](), typeOf[sort.IntSlice](), typeOf[sort.StringSlice](), typeOf[sort.Float64Slice](), typeOf[*sort.IntSlice](),
		typeOf[mInts](), typeOf[mStrs](), typeOf[sort.IntSlice](), typeOf[sort.StringSlice](), typeOf[sort.Float64Slice](), typeOf[json.RawMessage](),
		typeOf[[]json.RawMessage](), typeOf[[]json.Number](), typeOf[list[int]](), typeOf[list[string]](), typeOf[list[int16]]())
	return out
}()

// accepts is the documentation of the four functions.
func accepts(fn string, t reflect.Type) bool {
	if t == nil || t.Kind() != reflect.Slice {
		return false
	}
	e := t.Elem()
	if fn == "SortLen" || fn == "IsSortedLen" {
		return e.Kind() == reflect.String || e.Kind() == reflect.Slice
	}
	switch e.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr,
		reflect.Float32, reflect.Float64, reflect.String, reflect.UnsafePointer, reflect.Pointer:
		return true
	case reflect.Slice:
		return e.Elem().Kind() == reflect.Uint8
	}
	return false
}

type argument struct {
	any  any
	t    reflect.Type
	v    reflect.Value // the slice, or what a pointer points to
	mem  []byte        // of the elements
	esz  int
	n    int
	keep []any
}

// makeArg builds a value of type t with n elements where that means something.
func makeArg(t reflect.Type, n int, seed uint64) *argument {
	a := &argument{t: t, n: n}
	if t == nil {
		return a
	}
	r := simrt.NewRNG(seed)
	var v reflect.Value
	hold := t // the type whose elements are filled
	switch {
	case t.Kind() == reflect.Slice:
		if n == 0 && r.P(500) {
			a.any = reflect.Zero(t).Interface()
			return a
		}
		v = reflect.MakeSlice(t, n, n+r.N(3))
		a.any = v.Interface()
		a.v = v
	case t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Slice:
		hold = t.Elem()
		v = reflect.MakeSlice(hold, n, n)
		p := reflect.New(hold)
		p.Elem().Set(v)
		a.any = p.Convert(t).Interface()
		a.v = p.Elem()
	case t.Kind() == reflect.Pointer && t.Elem().Kind() == reflect.Array:
		hold = t.Elem()
		p := reflect.New(hold)
		a.any = p.Convert(t).Interface()
		a.v = p.Elem()
		v = p.Elem()
	case t.Kind() == reflect.Map:
		a.any = reflect.MakeMap(t).Interface()
		return a
	case t.Kind() == reflect.Chan && t.ChanDir() == reflect.BothDir:
		a.any = reflect.MakeChan(t, 1).Interface()
		return a
	default:
		a.any = reflect.Zero(t).Interface()
		return a
	}
	e := hold.Elem()
	a.esz = int(e.Size())
	n = v.Len()
	a.n = n
	if n == 0 || a.esz == 0 {
		return a
	}
	a.mem = unsafe.Slice((*byte)(v.Index(0).Addr().UnsafePointer()), n*a.esz)
	pay := make([]byte, 256)
	for i := range pay {
		pay[i] = byte(r.N(4))
	}
	a.keep = append(a.keep, pay)
	few := 1 + r.N(2*n)
	for i := 0; i < n; i++ {
		x := v.Index(i)
		at := unsafe.Pointer(&pay[r.N(len(pay)-8)&^7])
		switch e.Kind() {
		case reflect.String:
			o := r.N(200)
			x.SetString(string(pay[o : o+r.N(1+min(few, 50))]))
		case reflect.Slice:
			x.Set(reflect.MakeSlice(e, r.N(1+min(few, 20)), 20+r.N(3)))
			if e.Elem().Kind() == reflect.Uint8 {
				copy(x.Bytes(), pay[r.N(200):])
			}
		case reflect.UnsafePointer:
			x.SetPointer(at)
		case reflect.Pointer, reflect.Map, reflect.Chan, reflect.Func, reflect.Interface, reflect.Struct, reflect.Array:
			if e.Kind() == reflect.Pointer {
				*(*unsafe.Pointer)(x.Addr().UnsafePointer()) = at
			} else if e == typeOf[pair]() || e == typeOf[one]() || e == typeOf[[2]int]() || e == typeOf[[1]int64]() || e == typeOf[nArr]() {
				b := unsafe.Slice((*byte)(x.Addr().UnsafePointer()), a.esz)
				for k := range b {
					b[k] = byte(r.U64())
				}
			}
		case reflect.Float32:
			x.SetFloat(float64(float32(r.N(few)) - 3))
		case reflect.Float64:
			x.SetFloat(float64(r.N(few))/7 - 1)
		case reflect.Bool:
			x.SetBool(r.P(500))
		default:
			b := unsafe.Slice((*byte)(x.Addr().UnsafePointer()), a.esz)
			w := r.U64()
			if few&1 == 0 {
				w = uint64(r.N(few))
			}
			for k := range b {
				b[k] = byte(w >> uint(k%8*8))
			}
		}
	}
	return a
}

// less compares two elements as function fn documents it.
func (a *argument) less(fn string, i, k int) bool {
	x, y := a.v.Index(i), a.v.Index(k)
	if fn == "SortLen" || fn == "IsSortedLen" {
		return x.Len() < y.Len()
	}
	switch x.Kind() {
	case reflect.Int, reflect.Int32, reflect.Int64:
		return x.Int() < y.Int()
	case reflect.Uint, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return x.Uint() < y.Uint()
	case reflect.Float32, reflect.Float64:
		return x.Float() < y.Float()
	case reflect.String:
		return x.String() < y.String()
	case reflect.Slice:
		return bytes.Compare(x.Bytes(), y.Bytes()) < 0
	}
	return x.Pointer() < y.Pointer()
}

func (a *argument) unsorted(fn string) int {
	for i := 1; i < a.n; i++ {
		if a.less(fn, i, i-1) {
			return i
		}
	}
	return 0
}

func (a *argument) chunks() []string {
	var out []string
	for i := 0; a.esz > 0 && i+a.esz <= len(a.mem); i += a.esz {
		out = append(out, string(a.mem[i:i+a.esz]))
	}
	sort.Strings(out)
	return out
}

func typeName(t reflect.Type) string {
	if t == nil {
		return "nil"
	}
	return t.String()
}

// misuse calls one of the four functions with an argument of any type and judges the outcome.
func (e *exec) misuse(op *Op) {
	s, st := e.s, &e.o.st
	t := argTypes[op.K%len(argTypes)]
	a := makeArg(t, op.N, op.Seed)
	before := append([]byte(nil), a.mem...)
	chunks := a.chunks()
	call := &simrt.Call{}
	call.Desc = fmt.Sprintf("call %d %s(%s)", e.seq, op.Fn, typeName(t))
	call.User = op
	if len(a.mem) > 0 {
		reg := s.AddRegion(fmt.Sprintf("argument of %s", call.Desc), unsafe.Pointer(&a.mem[0]), uintptr(a.esz), a.n)
		call.Region = reg
		if accepts(op.Fn, t) {
			call.Hi = a.n
		} // else any access is outside
	}
	call.Query = op.Fn == "IsSortedSlice" || op.Fn == "IsSortedLen"
	e.seq++
	st.calls++
	ret := 0
	var panicked any
	refused := true
	func() {
		defer func() {
			if refused {
				panicked = recover()
			}
			simrt.End(call, refused)
		}()
		simrt.Begin(call)
		switch op.Fn {
		case "SortSlice":
			sorty.SortSlice(a.any)
		case "SortLen":
			sorty.SortLen(a.any)
		case "IsSortedSlice":
			ret = sorty.IsSortedSlice(a.any)
		default:
			ret = sorty.IsSortedLen(a.any)
		}
		refused = false
	}()
	if s.Aborting() {
		runtime.Goexit()
	}
	same := string(before) == string(a.mem)
	if !accepts(op.Fn, t) {
		st.misuses++
		if !refused {
			e.bad("accepted", "%s accepted an argument of an unsupported type", call.Desc)
		}
		if refused && panicked == nil {
			e.bad("accepted", "%s ended its goroutine instead of panicking", call.Desc)
		}
		if !same {
			e.bad("altered", "%s changed an argument of an unsupported type", call.Desc)
		}
		if len(call.Helpers) > 0 || call.Chans > 0 {
			e.bad("accepted", "%s created goroutines or channels for an argument of an unsupported type", call.Desc)
		}
		return
	}
	if refused {
		e.bad("refused", "%s with %d elements refused a supported type: %v", call.Desc, a.n, panicked)
		return
	}
	if call.Query && !same {
		e.bad("altered", "%s changed its argument", call.Desc)
	}
	bad := 0
	if a.v.IsValid() {
		bad = a.unsorted(op.Fn)
	}
	if call.Query {
		if (ret == 0) != (bad == 0) || ret < 0 || ret > 0 && (ret >= a.n || !a.less(op.Fn, ret, ret-1)) {
			e.bad("unsorted", "%s returned %d, elements %d and %d are out of order", call.Desc, ret, bad-1, bad)
		}
		return
	}
	if bad != 0 {
		e.bad("unsorted", "%s returned with elements %d and %d out of order", call.Desc, bad-1, bad)
	}
	now := a.chunks()
	for i := range chunks {
		if chunks[i] != now[i] {
			e.bad("altered", "%s changed the elements", call.Desc)
			break
		}
	}
}

// consistent tells whether the start-up parameters satisfy their documented order.
func consistent(l [4]int, gor uint64) bool {
	ins, insFC, rec, recFC := l[0], l[1], l[2], l[3]
	return gor > 0 && gor <= 4096 && rec > recFC && insFC > 8 && ins > insFC && ins <= math.MaxInt/2 && recFC > 2*ins
}

// boot starts the library with the parameters of the scenario; false if it refuses.
func boot(sc *Scenario) (up bool) {
	defer func() {
		if !up {
			recover()
		}
	}()
	sorty.SimInit__(func() {
		setLimits(sc.Lim)
		sorty.MaxGor = sc.Gor
	})
	return true
}

// vsearch searches a collection that exists only as a predicate, of any length.
func (e *exec) vsearch(op *Op) {
	s, st := e.s, &e.o.st
	call := &simrt.Call{Query: true}
	call.Desc = fmt.Sprintf("call %d Search(%d)", e.seq, op.N)
	call.User = op
	e.seq++
	st.calls++
	st.queries++
	ret := 0
	var panicked any
	over := false
	func() {
		defer func() {
			if !over {
				panicked = recover()
			}
			simrt.End(call, !over)
		}()
		simrt.Begin(call)
		ret = sorty.Search(op.N, func(i int) bool {
			if call.Lsws++; call.Lsws > 4096 {
				panic("Search does not end")
			}
			if i < 0 || i >= op.N {
				e.bad("query-wrong", "Search(%d) called its function with %d", op.N, i)
			}
			simrt.Tick(0)
			return i >= op.K
		})
		over = true
	}()
	if s.Aborting() {
		runtime.Goexit()
	}
	if !over {
		e.bad("panic", "%s panicked: %v", call.Desc, panicked)
		return
	}
	want := op.K
	if want < 0 {
		want = 0
	}
	if want > op.N {
		want = op.N
	}
	if op.N <= 0 {
		want = ret // any answer of a search in nothing that is not a position
		if ret > 0 {
			e.bad("query-wrong", "%s returned %d", call.Desc, ret)
		}
	}
	if ret != want {
		e.bad("query-wrong", "%s returned %d: lowest index satisfying the predicate is %d", call.Desc, ret, want)
	}
}

// nothing calls a function on a collection in which there is nothing to do: the callback is
// never needed, it may be nil.
func (e *exec) nothing(op *Op) {
	s, st := e.s, &e.o.st
	call := &simrt.Call{Query: op.Fn != "Sort"}
	call.Desc = fmt.Sprintf("call %d %s(%d)", e.seq, op.Fn, op.N)
	call.User = op
	e.seq++
	st.calls++
	asked := 0
	class := "query-wrong"
	if op.Fn == "Sort" {
		class = "index"
	}
	var lsw sorty.Lesswap
	var fn func(int) bool
	if op.K != 0 {
		lsw = func(i, k, r, s int) bool {
			if asked++; asked == 1 {
				e.bad(class, "%s called its comparator with %d, %d, %d, %d", call.Desc, i, k, r, s)
			}
			return false
		}
		fn = func(i int) bool {
			if asked++; asked == 1 {
				e.bad(class, "%s called its function with %d", call.Desc, i)
			}
			return true
		}
	}
	ret := 0
	var panicked any
	over := false
	func() {
		defer func() {
			if !over {
				panicked = recover()
			}
			simrt.End(call, !over)
		}()
		simrt.Begin(call)
		switch op.Fn {
		case "Sort":
			sorty.Sort(op.N, lsw)
		case "IsSorted":
			ret = sorty.IsSorted(op.N, lsw)
		default:
			ret = sorty.Search(op.N, fn)
		}
		over = true
	}()
	if s.Aborting() {
		runtime.Goexit()
	}
	if !over {
		e.bad("panic", "%s panicked: %v", call.Desc, panicked)
	}
	if ret > 0 || ret != 0 && op.Fn == "IsSorted" {
		e.bad(class, "%s returned %d", call.Desc, ret)
	}
	if call.Chans > 0 || len(call.Helpers) > 0 {
		e.bad("serial", "%s created a channel or goroutines", call.Desc)
	}
}
