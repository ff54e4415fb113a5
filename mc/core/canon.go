package core

import (
	"encoding/binary"
	"math"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"
)

// Canon returns a canonical form of everything reachable from the given values: two
// values get the same form only when a renaming of addresses maps one onto the other.
// It reads unexported fields, numbers pointers in the order of a fixed traversal and
// sorts maps by key. Spare slice capacity, function values and channel contents are
// left out (a function or channel only counts as nil or not), time.Time is
// taken relative to now and "already past" instants are one value.
func Canon(now time.Time, vals ...any) []byte {
	w := &canonW{now: now, ptrs: map[ptrKey]int{}}
	for _, v := range vals {
		w.walk(reflect.ValueOf(v))
	}
	return w.buf
}

// CanonRel is Canon with numbers of 64 bits replaced by rel(number), so that points in time kept
// as numbers can be taken relative to now.
func CanonRel(now time.Time, rel func(int64) int64, vals ...any) []byte {
	w := &canonW{now: now, rel: rel, ptrs: map[ptrKey]int{}}
	for _, v := range vals {
		w.walk(reflect.ValueOf(v))
	}
	return w.buf
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

type canonW struct {
	buf  []byte
	now  time.Time
	rel  func(int64) int64
	ptrs map[ptrKey]int
}

func (w *canonW) u64(x uint64) { w.buf = binary.AppendUvarint(w.buf, x) }
func (w *canonW) str(s string) { w.u64(uint64(len(s))); w.buf = append(w.buf, s...) }

// number writes the number of a pointer and reports whether it is new.
func (w *canonW) number(p unsafe.Pointer, t reflect.Type) bool {
	k := ptrKey{p, t}
	if n, ok := w.ptrs[k]; ok {
		w.u64(uint64(n))
		return false
	}
	n := len(w.ptrs) + 1
	w.ptrs[k] = n
	w.u64(uint64(n))
	return true
}

var timeType = reflect.TypeOf(time.Time{})

func (w *canonW) walk(v reflect.Value) {
	if !v.IsValid() {
		w.buf = append(w.buf, 0)
		return
	}
	t := v.Type()
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			w.buf = append(w.buf, 1)
		} else {
			w.buf = append(w.buf, 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := v.Int()
		if w.rel != nil {
			x = w.rel(x)
		}
		w.buf = binary.AppendVarint(w.buf, x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		w.u64(v.Uint())
	case reflect.Float32, reflect.Float64:
		w.u64(math.Float64bits(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		w.u64(math.Float64bits(real(v.Complex())))
		w.u64(math.Float64bits(imag(v.Complex())))
	case reflect.String:
		w.str(v.String())
	case reflect.Func:
		if v.IsNil() {
			w.buf = append(w.buf, 0)
		} else {
			w.buf = append(w.buf, 1)
		}
	case reflect.Chan:
		if v.IsNil() {
			w.buf = append(w.buf, 0)
		} else if w.number(v.UnsafePointer(), t) {
			w.u64(uint64(v.Len()))
			w.u64(uint64(v.Cap()))
		}
	case reflect.UnsafePointer:
		if p := v.UnsafePointer(); p == nil {
			w.buf = append(w.buf, 0)
		} else {
			w.number(p, t)
		}
	case reflect.Pointer:
		p := v.UnsafePointer()
		if p == nil {
			w.buf = append(w.buf, 0)
			return
		}
		if w.number(p, t) {
			w.walk(v.Elem())
		}
	case reflect.Interface:
		if v.IsNil() {
			w.buf = append(w.buf, 0)
			return
		}
		e := v.Elem()
		w.str(e.Type().String())
		w.walk(e)
	case reflect.Slice:
		if v.IsNil() {
			w.buf = append(w.buf, 0)
			return
		}
		w.u64(uint64(v.Len()) + 1)
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			w.walk(v.Index(i))
		}
	case reflect.Map:
		if v.IsNil() {
			w.buf = append(w.buf, 0)
			return
		}
		w.u64(uint64(v.Len()) + 1)
		type kv struct {
			key string
			val reflect.Value
		}
		var kvs []kv
		it := v.MapRange()
		for it.Next() {
			sub := &canonW{now: w.now, rel: w.rel, ptrs: map[ptrKey]int{}}
			sub.walk(it.Key())
			kvs = append(kvs, kv{string(sub.buf), it.Value()})
		}
		sort.Slice(kvs, func(i, j int) bool { return kvs[i].key < kvs[j].key })
		for _, e := range kvs {
			w.str(e.key)
			w.walk(e.val)
		}
	case reflect.Struct:
		if t == timeType {
			w.time(v)
			return
		}
		if t.PkgPath() == "sync" && t.Name() == "Pool" {
			return
		}
		if strings.HasPrefix(t.Name(), "Pointer[") && strings.HasSuffix(t.PkgPath(), "atomic") {
			w.atomicPointer(v)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			w.walk(v.Field(i))
		}
	}
}

func (w *canonW) time(v reflect.Value) {
	// v may come from an unexported field: rebuild the value from its words.
	var tm time.Time
	if v.CanInterface() {
		tm = v.Interface().(time.Time)
	} else {
		p := reflect.New(timeType)
		for i := 0; i < v.NumField(); i++ {
			dst := reflect.NewAt(p.Elem().Field(i).Type(), unsafe.Pointer(p.Elem().Field(i).UnsafeAddr())).Elem()
			switch f := v.Field(i); f.Kind() {
			case reflect.Uint64:
				dst.SetUint(f.Uint())
			case reflect.Int64:
				dst.SetInt(f.Int())
			}
		}
		tm = p.Elem().Interface().(time.Time)
	}
	if tm.IsZero() {
		w.buf = append(w.buf, 0)
		return
	}
	d := tm.Sub(w.now)
	if d < 0 {
		d = -1
	}
	w.buf = binary.AppendVarint(append(w.buf, 1), int64(d))
}

// atomicPointer follows the pointer of a sync/atomic.Pointer[T] (or a stand-in with the
// same shape): some field holds an unsafe.Pointer, the first field's type is [0]*T.
func (w *canonW) atomicPointer(v reflect.Value) {
	var elem reflect.Type
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		if f.Kind() == reflect.Array && f.Len() == 0 && f.Type().Elem().Kind() == reflect.Pointer {
			elem = f.Type().Elem().Elem()
		}
		if f.Kind() == reflect.UnsafePointer {
			p := f.UnsafePointer()
			if p == nil || elem == nil {
				w.buf = append(w.buf, 0)
				continue
			}
			if w.number(p, reflect.PointerTo(elem)) {
				w.walk(reflect.NewAt(elem, p).Elem())
			}
		}
	}
}
