// Package satomic stands in for sync/atomic: every operation is a scheduling point and
// a happens-before edge, and is performed for real in between.
package satomic

import (
	"sync/atomic"
	"unsafe"

	"verifrt/simrt"
)

func bef[T any](p *T) { simrt.AtomicBefore(unsafe.Pointer(p)) }
func ld[T any](p *T)  { simrt.AtomicAfter(unsafe.Pointer(p), simrt.ALoad) }
func st[T any](p *T)  { simrt.AtomicAfter(unsafe.Pointer(p), simrt.AStore) }
func rmw[T any](p *T) { simrt.AtomicAfter(unsafe.Pointer(p), simrt.ARMW) }

func cas[T any](p *T, ok bool) bool {
	if ok {
		rmw(p)
	} else {
		simrt.CASFailed()
		ld(p)
	}
	return ok
}

// LoadInt32 is atomic.LoadInt32.
func LoadInt32(p *int32) int32 {
	bef(p)
	r := atomic.LoadInt32(p)
	ld(p)
	return r
}

// StoreInt32 is atomic.StoreInt32.
func StoreInt32(p *int32, v int32) {
	bef(p)
	atomic.StoreInt32(p, v)
	st(p)
}

// SwapInt32 is atomic.SwapInt32.
func SwapInt32(p *int32, v int32) int32 {
	bef(p)
	r := atomic.SwapInt32(p, v)
	rmw(p)
	return r
}

// AddInt32 is atomic.AddInt32.
func AddInt32(p *int32, d int32) int32 {
	bef(p)
	r := atomic.AddInt32(p, d)
	rmw(p)
	return r
}

// AndInt32 is atomic.AndInt32.
func AndInt32(p *int32, m int32) int32 {
	bef(p)
	r := atomic.AndInt32(p, m)
	rmw(p)
	return r
}

// OrInt32 is atomic.OrInt32.
func OrInt32(p *int32, m int32) int32 {
	bef(p)
	r := atomic.OrInt32(p, m)
	rmw(p)
	return r
}

// CompareAndSwapInt32 is atomic.CompareAndSwapInt32.
func CompareAndSwapInt32(p *int32, o, n int32) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapInt32(p, o, n))
}

// Int32 is atomic.Int32.
type Int32 struct {
	v atomic.Int32 // keeps its guaranteed alignment
}

func (x *Int32) p() *int32 { return (*int32)(unsafe.Pointer(&x.v)) }

func (x *Int32) Load() int32                    { return LoadInt32(x.p()) }
func (x *Int32) Store(v int32)                  { StoreInt32(x.p(), v) }
func (x *Int32) Swap(v int32) int32             { return SwapInt32(x.p(), v) }
func (x *Int32) CompareAndSwap(o, n int32) bool { return CompareAndSwapInt32(x.p(), o, n) }
func (x *Int32) Add(d int32) int32              { return AddInt32(x.p(), d) }
func (x *Int32) And(m int32) int32              { return AndInt32(x.p(), m) }
func (x *Int32) Or(m int32) int32               { return OrInt32(x.p(), m) }

// LoadInt64 is atomic.LoadInt64.
func LoadInt64(p *int64) int64 {
	bef(p)
	r := atomic.LoadInt64(p)
	ld(p)
	return r
}

// StoreInt64 is atomic.StoreInt64.
func StoreInt64(p *int64, v int64) {
	bef(p)
	atomic.StoreInt64(p, v)
	st(p)
}

// SwapInt64 is atomic.SwapInt64.
func SwapInt64(p *int64, v int64) int64 {
	bef(p)
	r := atomic.SwapInt64(p, v)
	rmw(p)
	return r
}

// AddInt64 is atomic.AddInt64.
func AddInt64(p *int64, d int64) int64 {
	bef(p)
	r := atomic.AddInt64(p, d)
	rmw(p)
	return r
}

// AndInt64 is atomic.AndInt64.
func AndInt64(p *int64, m int64) int64 {
	bef(p)
	r := atomic.AndInt64(p, m)
	rmw(p)
	return r
}

// OrInt64 is atomic.OrInt64.
func OrInt64(p *int64, m int64) int64 {
	bef(p)
	r := atomic.OrInt64(p, m)
	rmw(p)
	return r
}

// CompareAndSwapInt64 is atomic.CompareAndSwapInt64.
func CompareAndSwapInt64(p *int64, o, n int64) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapInt64(p, o, n))
}

// Int64 is atomic.Int64.
type Int64 struct {
	v atomic.Int64 // keeps its guaranteed alignment
}

func (x *Int64) p() *int64 { return (*int64)(unsafe.Pointer(&x.v)) }

func (x *Int64) Load() int64                    { return LoadInt64(x.p()) }
func (x *Int64) Store(v int64)                  { StoreInt64(x.p(), v) }
func (x *Int64) Swap(v int64) int64             { return SwapInt64(x.p(), v) }
func (x *Int64) CompareAndSwap(o, n int64) bool { return CompareAndSwapInt64(x.p(), o, n) }
func (x *Int64) Add(d int64) int64              { return AddInt64(x.p(), d) }
func (x *Int64) And(m int64) int64              { return AndInt64(x.p(), m) }
func (x *Int64) Or(m int64) int64               { return OrInt64(x.p(), m) }

// LoadUint32 is atomic.LoadUint32.
func LoadUint32(p *uint32) uint32 {
	bef(p)
	r := atomic.LoadUint32(p)
	ld(p)
	return r
}

// StoreUint32 is atomic.StoreUint32.
func StoreUint32(p *uint32, v uint32) {
	bef(p)
	atomic.StoreUint32(p, v)
	st(p)
}

// SwapUint32 is atomic.SwapUint32.
func SwapUint32(p *uint32, v uint32) uint32 {
	bef(p)
	r := atomic.SwapUint32(p, v)
	rmw(p)
	return r
}

// AddUint32 is atomic.AddUint32.
func AddUint32(p *uint32, d uint32) uint32 {
	bef(p)
	r := atomic.AddUint32(p, d)
	rmw(p)
	return r
}

// AndUint32 is atomic.AndUint32.
func AndUint32(p *uint32, m uint32) uint32 {
	bef(p)
	r := atomic.AndUint32(p, m)
	rmw(p)
	return r
}

// OrUint32 is atomic.OrUint32.
func OrUint32(p *uint32, m uint32) uint32 {
	bef(p)
	r := atomic.OrUint32(p, m)
	rmw(p)
	return r
}

// CompareAndSwapUint32 is atomic.CompareAndSwapUint32.
func CompareAndSwapUint32(p *uint32, o, n uint32) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapUint32(p, o, n))
}

// Uint32 is atomic.Uint32.
type Uint32 struct {
	v atomic.Uint32 // keeps its guaranteed alignment
}

func (x *Uint32) p() *uint32 { return (*uint32)(unsafe.Pointer(&x.v)) }

func (x *Uint32) Load() uint32                    { return LoadUint32(x.p()) }
func (x *Uint32) Store(v uint32)                  { StoreUint32(x.p(), v) }
func (x *Uint32) Swap(v uint32) uint32            { return SwapUint32(x.p(), v) }
func (x *Uint32) CompareAndSwap(o, n uint32) bool { return CompareAndSwapUint32(x.p(), o, n) }
func (x *Uint32) Add(d uint32) uint32             { return AddUint32(x.p(), d) }
func (x *Uint32) And(m uint32) uint32             { return AndUint32(x.p(), m) }
func (x *Uint32) Or(m uint32) uint32              { return OrUint32(x.p(), m) }

// LoadUint64 is atomic.LoadUint64.
func LoadUint64(p *uint64) uint64 {
	bef(p)
	r := atomic.LoadUint64(p)
	ld(p)
	return r
}

// StoreUint64 is atomic.StoreUint64.
func StoreUint64(p *uint64, v uint64) {
	bef(p)
	atomic.StoreUint64(p, v)
	st(p)
}

// SwapUint64 is atomic.SwapUint64.
func SwapUint64(p *uint64, v uint64) uint64 {
	bef(p)
	r := atomic.SwapUint64(p, v)
	rmw(p)
	return r
}

// AddUint64 is atomic.AddUint64.
func AddUint64(p *uint64, d uint64) uint64 {
	bef(p)
	r := atomic.AddUint64(p, d)
	rmw(p)
	return r
}

// AndUint64 is atomic.AndUint64.
func AndUint64(p *uint64, m uint64) uint64 {
	bef(p)
	r := atomic.AndUint64(p, m)
	rmw(p)
	return r
}

// OrUint64 is atomic.OrUint64.
func OrUint64(p *uint64, m uint64) uint64 {
	bef(p)
	r := atomic.OrUint64(p, m)
	rmw(p)
	return r
}

// CompareAndSwapUint64 is atomic.CompareAndSwapUint64.
func CompareAndSwapUint64(p *uint64, o, n uint64) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapUint64(p, o, n))
}

// Uint64 is atomic.Uint64.
type Uint64 struct {
	v atomic.Uint64 // keeps its guaranteed alignment
}

func (x *Uint64) p() *uint64 { return (*uint64)(unsafe.Pointer(&x.v)) }

func (x *Uint64) Load() uint64                    { return LoadUint64(x.p()) }
func (x *Uint64) Store(v uint64)                  { StoreUint64(x.p(), v) }
func (x *Uint64) Swap(v uint64) uint64            { return SwapUint64(x.p(), v) }
func (x *Uint64) CompareAndSwap(o, n uint64) bool { return CompareAndSwapUint64(x.p(), o, n) }
func (x *Uint64) Add(d uint64) uint64             { return AddUint64(x.p(), d) }
func (x *Uint64) And(m uint64) uint64             { return AndUint64(x.p(), m) }
func (x *Uint64) Or(m uint64) uint64              { return OrUint64(x.p(), m) }

// LoadUintptr is atomic.LoadUintptr.
func LoadUintptr(p *uintptr) uintptr {
	bef(p)
	r := atomic.LoadUintptr(p)
	ld(p)
	return r
}

// StoreUintptr is atomic.StoreUintptr.
func StoreUintptr(p *uintptr, v uintptr) {
	bef(p)
	atomic.StoreUintptr(p, v)
	st(p)
}

// SwapUintptr is atomic.SwapUintptr.
func SwapUintptr(p *uintptr, v uintptr) uintptr {
	bef(p)
	r := atomic.SwapUintptr(p, v)
	rmw(p)
	return r
}

// AddUintptr is atomic.AddUintptr.
func AddUintptr(p *uintptr, d uintptr) uintptr {
	bef(p)
	r := atomic.AddUintptr(p, d)
	rmw(p)
	return r
}

// AndUintptr is atomic.AndUintptr.
func AndUintptr(p *uintptr, m uintptr) uintptr {
	bef(p)
	r := atomic.AndUintptr(p, m)
	rmw(p)
	return r
}

// OrUintptr is atomic.OrUintptr.
func OrUintptr(p *uintptr, m uintptr) uintptr {
	bef(p)
	r := atomic.OrUintptr(p, m)
	rmw(p)
	return r
}

// CompareAndSwapUintptr is atomic.CompareAndSwapUintptr.
func CompareAndSwapUintptr(p *uintptr, o, n uintptr) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapUintptr(p, o, n))
}

// Uintptr is atomic.Uintptr.
type Uintptr struct {
	v atomic.Uintptr // keeps its guaranteed alignment
}

func (x *Uintptr) p() *uintptr { return (*uintptr)(unsafe.Pointer(&x.v)) }

func (x *Uintptr) Load() uintptr                    { return LoadUintptr(x.p()) }
func (x *Uintptr) Store(v uintptr)                  { StoreUintptr(x.p(), v) }
func (x *Uintptr) Swap(v uintptr) uintptr           { return SwapUintptr(x.p(), v) }
func (x *Uintptr) CompareAndSwap(o, n uintptr) bool { return CompareAndSwapUintptr(x.p(), o, n) }
func (x *Uintptr) Add(d uintptr) uintptr            { return AddUintptr(x.p(), d) }
func (x *Uintptr) And(m uintptr) uintptr            { return AndUintptr(x.p(), m) }
func (x *Uintptr) Or(m uintptr) uintptr             { return OrUintptr(x.p(), m) }

// LoadPointer is atomic.LoadPointer.
func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	bef(p)
	r := atomic.LoadPointer(p)
	ld(p)
	return r
}

// StorePointer is atomic.StorePointer.
func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	bef(p)
	atomic.StorePointer(p, v)
	st(p)
}

// SwapPointer is atomic.SwapPointer.
func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	bef(p)
	r := atomic.SwapPointer(p, v)
	rmw(p)
	return r
}

// CompareAndSwapPointer is atomic.CompareAndSwapPointer.
func CompareAndSwapPointer(p *unsafe.Pointer, o, n unsafe.Pointer) bool {
	bef(p)
	return cas(p, atomic.CompareAndSwapPointer(p, o, n))
}

// Pointer is atomic.Pointer.
type Pointer[T any] struct {
	_ [0]func()
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(o, n *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(o), unsafe.Pointer(n))
}

// Bool is atomic.Bool.
type Bool struct {
	_ [0]func()
	v uint32
}

func b2(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool                    { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)                  { StoreUint32(&x.v, b2(v)) }
func (x *Bool) Swap(v bool) bool              { return SwapUint32(&x.v, b2(v)) != 0 }
func (x *Bool) CompareAndSwap(o, n bool) bool { return CompareAndSwapUint32(&x.v, b2(o), b2(n)) }

// Value is atomic.Value.
type Value struct {
	v atomic.Value
}

func (x *Value) Load() any {
	bef(x)
	r := x.v.Load()
	ld(x)
	return r
}

func (x *Value) Store(v any) {
	bef(x)
	x.v.Store(v)
	st(x)
}

func (x *Value) Swap(v any) any {
	bef(x)
	r := x.v.Swap(v)
	rmw(x)
	return r
}

func (x *Value) CompareAndSwap(o, n any) bool {
	bef(x)
	return cas(x, x.v.CompareAndSwap(o, n))
}
