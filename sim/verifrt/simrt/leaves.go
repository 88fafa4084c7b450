package simrt

import (
	"reflect"
	"unsafe"
)

var leafCache = map[reflect.Type][]uintptr{}

func leavesOf(t reflect.Type) []uintptr {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var l []uintptr
	switch t.Kind() {
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			for _, o := range leavesOf(t.Field(i).Type) {
				l = append(l, t.Field(i).Offset+o)
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len() && i < 4096; i++ {
			for _, o := range leavesOf(t.Elem()) {
				l = append(l, uintptr(i)*t.Elem().Size()+o)
			}
		}
	default:
		l = []uintptr{0}
	}
	leafCache[t] = l
	return l
}

func (s *Sim) leaves(p any, base unsafe.Pointer, site uint32, write bool) {
	s.SiteHit[site>>6] |= 1 << (site & 63)
	for _, o := range leavesOf(reflect.TypeOf(p).Elem()) {
		s.record(uintptr(base)+o, site, write)
	}
}
