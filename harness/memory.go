package main

import (
	"hash/maphash"
	"reflect"
	"unsafe"
)

// What the memory of a message is: not its value (snapshots record that) but
// where everything it consists of lies, with what lengths and capacities, and
// what the spare capacity of its slices holds. Calls that only read a message
// leave all of it as it is.

var memorySeed = maphash.MakeSeed()

const hiddenMax = 1 << 12

type memory map[unsafe.Pointer]uint64 // of what it has seen: messages may share what they hold

func raw(p unsafe.Pointer, n uintptr) uint64 {
	if n == 0 {
		return 0
	}
	return maphash.Bytes(memorySeed, unsafe.Slice((*byte)(p), n))
}

func memoryOf(p reflect.Value) uint64 { return memory{}.of(p) }

// of walks what x, which is addressable or a pointer, refers to.
func (m memory) of(x reflect.Value) uint64 {
	switch x.Kind() {
	case reflect.Ptr:
		p := x.UnsafePointer()
		if x.IsNil() || x.Type().Elem().Size() == 0 {
			return 0
		}
		h, ok := m[p]
		if !ok {
			h = raw(p, x.Type().Elem().Size()) + 3*m.of(x.Elem())
			m[p] = h
		}
		return h
	case reflect.Struct:
		h := uint64(0)
		for i := 0; i < x.NumField(); i++ {
			h = 7*h + m.of(x.Field(i))
		}
		return h
	case reflect.Slice:
		size := x.Type().Elem().Size()
		h := uint64(0)
		if n := uintptr(x.Cap()-x.Len()) * size; n > 0 {
			if n > hiddenMax {
				n = hiddenMax
			}
			h = raw(unsafe.Add(x.UnsafePointer(), uintptr(x.Len())*size), n)
		}
		if k := x.Type().Elem().Kind(); k != reflect.Ptr && k != reflect.String && k != reflect.Slice && k != reflect.Struct {
			return h
		}
		if x.Len() > 0 {
			h += 5 * raw(x.UnsafePointer(), uintptr(x.Len())*size)
		}
		for i := 0; i < x.Len(); i++ {
			h = 7*h + m.of(x.Index(i))
		}
		return h
	case reflect.Map:
		h := uint64(x.Len())
		k, e := reflect.New(x.Type().Key()).Elem(), reflect.New(x.Type().Elem()).Elem()
		for it := x.MapRange(); it.Next(); {
			if !it.Key().CanInterface() {
				return h
			}
			k.SetIterKey(it)
			e.SetIterValue(it)
			h += raw(k.Addr().UnsafePointer(), k.Type().Size()) ^ 3*raw(e.Addr().UnsafePointer(), e.Type().Size()) + 5*m.of(e)
		}
		return h
	}
	return 0
}
