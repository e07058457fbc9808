package mc

import (
	"encoding/binary"
	"fmt"
	"reflect"
	"sort"
	"unsafe"
)

// ElemBase separates container elements from bookkeeping integers in dumps.
const ElemBase = int64(1) << 40

// Dump builds a canonical byte string of everything reachable from the values
// given to it.  Pointers are numbered in order of first visit, so two isomorphic
// object graphs give the same dump; no field names are used.
type Dump struct {
	Buf  []byte
	ptrs map[ptrKey]int
	// Ren renames element values (>= ElemBase); the default keeps them.
	Ren func(v int64) int64
}

type ptrKey struct {
	p unsafe.Pointer
	t reflect.Type
}

func NewDump() *Dump { return &Dump{ptrs: map[ptrKey]int{}} }

func (d *Dump) num(tag byte, x int64) {
	d.Buf = append(d.Buf, tag)
	d.Buf = binary.AppendVarint(d.Buf, x)
}

// Int adds a number, String a string (model parts of a key).
func (d *Dump) Int(x int64)     { d.num('n', x) }
func (d *Dump) String(s string) { d.num('s', int64(len(s))); d.Buf = append(d.Buf, s...) }

// Val adds a whole object graph.
func (d *Dump) Val(v interface{}) { d.walk(reflect.ValueOf(v)) }

// ID returns the number given to a pointer during the dump, or -1.
func (d *Dump) ID(p interface{}) int {
	v := reflect.ValueOf(p)
	if id, ok := d.ptrs[ptrKey{v.UnsafePointer(), v.Type()}]; ok {
		return id
	}
	return -1
}

func (d *Dump) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		d.num('z', 0)
	case reflect.Bool:
		if v.Bool() {
			d.num('b', 1)
		} else {
			d.num('b', 0)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := v.Int()
		if x >= ElemBase && d.Ren != nil {
			x = d.Ren(x)
		}
		d.num('i', x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := v.Uint()
		if x >= uint64(ElemBase) && d.Ren != nil {
			x = uint64(d.Ren(int64(x)))
		}
		d.num('u', int64(x))
	case reflect.Float32, reflect.Float64:
		d.String(fmt.Sprint(v.Float()))
	case reflect.Complex64, reflect.Complex128:
		d.String(fmt.Sprint(v.Complex()))
	case reflect.String:
		d.String(v.String())
	case reflect.Ptr:
		if v.IsNil() {
			d.num('p', -1)
			return
		}
		k := ptrKey{v.UnsafePointer(), v.Type()}
		if id, ok := d.ptrs[k]; ok {
			d.num('p', int64(id))
			return
		}
		id := len(d.ptrs)
		d.ptrs[k] = id
		d.num('P', int64(id))
		d.walk(v.Elem())
	case reflect.Slice:
		if v.IsNil() {
			d.num('l', -1)
			return
		}
		d.num('l', int64(v.Len()))
		d.num('c', int64(v.Cap()))
		if v.Cap() == 0 {
			return
		}
		k := ptrKey{v.UnsafePointer(), v.Type()}
		if id, ok := d.ptrs[k]; ok {
			d.num('a', int64(id))
			return
		}
		id := len(d.ptrs)
		d.ptrs[k] = id
		d.num('A', int64(id))
		full := v.Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			d.walk(full.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			d.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			d.walk(v.Field(i))
		}
	case reflect.Map:
		if v.IsNil() {
			d.num('m', -1)
			return
		}
		d.num('m', int64(v.Len()))
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			d.walk(k)
			d.walk(v.MapIndex(k))
		}
	case reflect.Interface:
		if v.IsNil() {
			d.num('f', -1)
			return
		}
		d.String(v.Elem().Type().String())
		d.walk(v.Elem())
	default: // func, chan, unsafe pointer
		if v.IsNil() {
			d.num('x', 0)
		} else {
			d.num('x', int64(v.Pointer()))
		}
	}
}
