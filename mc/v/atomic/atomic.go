// Package atomic has the names of the standard package; every operation is a step of the scheduler.
package atomic

import (
	"sync/atomic"
	"unsafe"

	"verif/rt"
)

func at[T any](p *T, name string) rt.Atomic {
	return rt.AtomicOp(unsafe.Pointer(p), name)
}

func LoadInt32(p *int32) int32 {
	a := at(p, "Load")
	v := atomic.LoadInt32(p)
	a.Read()
	return v
}

func StoreInt32(p *int32, v int32) {
	at(p, "Store")
	atomic.StoreInt32(p, v)
}

func SwapInt32(p *int32, v int32) int32 {
	at(p, "Swap")
	return atomic.SwapInt32(p, v)
}

func CompareAndSwapInt32(p *int32, old, new int32) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapInt32(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

func AddInt32(p *int32, d int32) int32 {
	at(p, "Add")
	return atomic.AddInt32(p, d)
}

func AndInt32(p *int32, m int32) int32 {
	at(p, "And")
	return atomic.AndInt32(p, m)
}

func OrInt32(p *int32, m int32) int32 {
	at(p, "Or")
	return atomic.OrInt32(p, m)
}

type Int32 struct{ v int32 }

func (x *Int32) Load() int32                        { return LoadInt32(&x.v) }
func (x *Int32) Store(v int32)                      { StoreInt32(&x.v, v) }
func (x *Int32) Swap(v int32) int32                 { return SwapInt32(&x.v, v) }
func (x *Int32) CompareAndSwap(old, new int32) bool { return CompareAndSwapInt32(&x.v, old, new) }
func (x *Int32) Add(d int32) int32                  { return AddInt32(&x.v, d) }
func (x *Int32) And(m int32) int32                  { return AndInt32(&x.v, m) }
func (x *Int32) Or(m int32) int32                   { return OrInt32(&x.v, m) }

func LoadInt64(p *int64) int64 {
	a := at(p, "Load")
	v := atomic.LoadInt64(p)
	a.Read()
	return v
}

func StoreInt64(p *int64, v int64) {
	at(p, "Store")
	atomic.StoreInt64(p, v)
}

func SwapInt64(p *int64, v int64) int64 {
	at(p, "Swap")
	return atomic.SwapInt64(p, v)
}

func CompareAndSwapInt64(p *int64, old, new int64) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapInt64(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

func AddInt64(p *int64, d int64) int64 {
	at(p, "Add")
	return atomic.AddInt64(p, d)
}

func AndInt64(p *int64, m int64) int64 {
	at(p, "And")
	return atomic.AndInt64(p, m)
}

func OrInt64(p *int64, m int64) int64 {
	at(p, "Or")
	return atomic.OrInt64(p, m)
}

type Int64 struct{ v int64 }

func (x *Int64) Load() int64                        { return LoadInt64(&x.v) }
func (x *Int64) Store(v int64)                      { StoreInt64(&x.v, v) }
func (x *Int64) Swap(v int64) int64                 { return SwapInt64(&x.v, v) }
func (x *Int64) CompareAndSwap(old, new int64) bool { return CompareAndSwapInt64(&x.v, old, new) }
func (x *Int64) Add(d int64) int64                  { return AddInt64(&x.v, d) }
func (x *Int64) And(m int64) int64                  { return AndInt64(&x.v, m) }
func (x *Int64) Or(m int64) int64                   { return OrInt64(&x.v, m) }

func LoadUint32(p *uint32) uint32 {
	a := at(p, "Load")
	v := atomic.LoadUint32(p)
	a.Read()
	return v
}

func StoreUint32(p *uint32, v uint32) {
	at(p, "Store")
	atomic.StoreUint32(p, v)
}

func SwapUint32(p *uint32, v uint32) uint32 {
	at(p, "Swap")
	return atomic.SwapUint32(p, v)
}

func CompareAndSwapUint32(p *uint32, old, new uint32) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapUint32(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

func AddUint32(p *uint32, d uint32) uint32 {
	at(p, "Add")
	return atomic.AddUint32(p, d)
}

func AndUint32(p *uint32, m uint32) uint32 {
	at(p, "And")
	return atomic.AndUint32(p, m)
}

func OrUint32(p *uint32, m uint32) uint32 {
	at(p, "Or")
	return atomic.OrUint32(p, m)
}

type Uint32 struct{ v uint32 }

func (x *Uint32) Load() uint32                        { return LoadUint32(&x.v) }
func (x *Uint32) Store(v uint32)                      { StoreUint32(&x.v, v) }
func (x *Uint32) Swap(v uint32) uint32                { return SwapUint32(&x.v, v) }
func (x *Uint32) CompareAndSwap(old, new uint32) bool { return CompareAndSwapUint32(&x.v, old, new) }
func (x *Uint32) Add(d uint32) uint32                 { return AddUint32(&x.v, d) }
func (x *Uint32) And(m uint32) uint32                 { return AndUint32(&x.v, m) }
func (x *Uint32) Or(m uint32) uint32                  { return OrUint32(&x.v, m) }

func LoadUint64(p *uint64) uint64 {
	a := at(p, "Load")
	v := atomic.LoadUint64(p)
	a.Read()
	return v
}

func StoreUint64(p *uint64, v uint64) {
	at(p, "Store")
	atomic.StoreUint64(p, v)
}

func SwapUint64(p *uint64, v uint64) uint64 {
	at(p, "Swap")
	return atomic.SwapUint64(p, v)
}

func CompareAndSwapUint64(p *uint64, old, new uint64) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapUint64(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

func AddUint64(p *uint64, d uint64) uint64 {
	at(p, "Add")
	return atomic.AddUint64(p, d)
}

func AndUint64(p *uint64, m uint64) uint64 {
	at(p, "And")
	return atomic.AndUint64(p, m)
}

func OrUint64(p *uint64, m uint64) uint64 {
	at(p, "Or")
	return atomic.OrUint64(p, m)
}

type Uint64 struct{ v uint64 }

func (x *Uint64) Load() uint64                        { return LoadUint64(&x.v) }
func (x *Uint64) Store(v uint64)                      { StoreUint64(&x.v, v) }
func (x *Uint64) Swap(v uint64) uint64                { return SwapUint64(&x.v, v) }
func (x *Uint64) CompareAndSwap(old, new uint64) bool { return CompareAndSwapUint64(&x.v, old, new) }
func (x *Uint64) Add(d uint64) uint64                 { return AddUint64(&x.v, d) }
func (x *Uint64) And(m uint64) uint64                 { return AndUint64(&x.v, m) }
func (x *Uint64) Or(m uint64) uint64                  { return OrUint64(&x.v, m) }

func LoadUintptr(p *uintptr) uintptr {
	a := at(p, "Load")
	v := atomic.LoadUintptr(p)
	a.Read()
	return v
}

func StoreUintptr(p *uintptr, v uintptr) {
	at(p, "Store")
	atomic.StoreUintptr(p, v)
}

func SwapUintptr(p *uintptr, v uintptr) uintptr {
	at(p, "Swap")
	return atomic.SwapUintptr(p, v)
}

func CompareAndSwapUintptr(p *uintptr, old, new uintptr) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapUintptr(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

func AddUintptr(p *uintptr, d uintptr) uintptr {
	at(p, "Add")
	return atomic.AddUintptr(p, d)
}

func AndUintptr(p *uintptr, m uintptr) uintptr {
	at(p, "And")
	return atomic.AndUintptr(p, m)
}

func OrUintptr(p *uintptr, m uintptr) uintptr {
	at(p, "Or")
	return atomic.OrUintptr(p, m)
}

type Uintptr struct{ v uintptr }

func (x *Uintptr) Load() uintptr                        { return LoadUintptr(&x.v) }
func (x *Uintptr) Store(v uintptr)                      { StoreUintptr(&x.v, v) }
func (x *Uintptr) Swap(v uintptr) uintptr               { return SwapUintptr(&x.v, v) }
func (x *Uintptr) CompareAndSwap(old, new uintptr) bool { return CompareAndSwapUintptr(&x.v, old, new) }
func (x *Uintptr) Add(d uintptr) uintptr                { return AddUintptr(&x.v, d) }
func (x *Uintptr) And(m uintptr) uintptr                { return AndUintptr(&x.v, m) }
func (x *Uintptr) Or(m uintptr) uintptr                 { return OrUintptr(&x.v, m) }

func LoadPointer(p *unsafe.Pointer) unsafe.Pointer {
	a := at(p, "Load")
	v := atomic.LoadPointer(p)
	a.Read()
	return v
}

func StorePointer(p *unsafe.Pointer, v unsafe.Pointer) {
	at(p, "Store")
	atomic.StorePointer(p, v)
}

func SwapPointer(p *unsafe.Pointer, v unsafe.Pointer) unsafe.Pointer {
	at(p, "Swap")
	return atomic.SwapPointer(p, v)
}

func CompareAndSwapPointer(p *unsafe.Pointer, old, new unsafe.Pointer) bool {
	a := at(p, "CompareAndSwap")
	ok := atomic.CompareAndSwapPointer(p, old, new)
	if !ok {
		a.Read()
	}
	return ok
}

type Bool struct{ v uint32 }

func num(b bool) uint32 {
	if b {
		return 1
	}
	return 0
}

func (x *Bool) Load() bool       { return LoadUint32(&x.v) != 0 }
func (x *Bool) Store(v bool)     { StoreUint32(&x.v, num(v)) }
func (x *Bool) Swap(v bool) bool { return SwapUint32(&x.v, num(v)) != 0 }
func (x *Bool) CompareAndSwap(old, new bool) bool {
	return CompareAndSwapUint32(&x.v, num(old), num(new))
}

type Pointer[T any] struct {
	_ [0]*T
	v unsafe.Pointer
}

func (x *Pointer[T]) Load() *T     { return (*T)(LoadPointer(&x.v)) }
func (x *Pointer[T]) Store(v *T)   { StorePointer(&x.v, unsafe.Pointer(v)) }
func (x *Pointer[T]) Swap(v *T) *T { return (*T)(SwapPointer(&x.v, unsafe.Pointer(v))) }
func (x *Pointer[T]) CompareAndSwap(old, new *T) bool {
	return CompareAndSwapPointer(&x.v, unsafe.Pointer(old), unsafe.Pointer(new))
}

type Value struct{ v atomic.Value }

func (x *Value) Load() any {
	a := at(x, "Load")
	v := x.v.Load()
	a.Read()
	return v
}

func (x *Value) Store(v any) {
	at(x, "Store")
	x.v.Store(v)
}

func (x *Value) Swap(v any) any {
	at(x, "Swap")
	return x.v.Swap(v)
}

func (x *Value) CompareAndSwap(old, new any) bool {
	a := at(x, "CompareAndSwap")
	ok := x.v.CompareAndSwap(old, new)
	if !ok {
		a.Read()
	}
	return ok
}
