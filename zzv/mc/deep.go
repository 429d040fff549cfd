package main

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"github.com/qmuntal/stateless"

	"github.com/alexeykiselev/waves-fork-detector/zzv/leveldb"
	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

// deepHash is a canonical hash of everything reachable from the given objects: all fields, exported or not, of
// the program's own types, but not the simulated storage (hashed by its content) and the runtime's own types.
func deepHash(objs ...any) uint64 {
	d := &deep{seen: map[uintptr]int{}}
	var sb strings.Builder
	for _, o := range objs {
		d.val(&sb, reflect.ValueOf(o), 0)
		sb.WriteByte('|')
	}
	h := fnv.New64a()
	h.Write([]byte(sb.String()))
	return h.Sum64()
}

var timeType = reflect.TypeOf(time.Time{})

var fsmType = reflect.TypeOf((*stateless.StateMachine)(nil))

type deep struct{ seen map[uintptr]int }

func (d *deep) val(sb *strings.Builder, v reflect.Value, depth int) {
	if depth > 30 {
		sb.WriteString("^")
		return
	}
	if !v.IsValid() {
		sb.WriteString("nil")
		return
	}
	t := v.Type()
	if t == timeType {
		// Relative to now: only differences of times matter.
		var tm time.Time
		f := (*struct {
			wall uint64
			ext  int64
			loc  unsafe.Pointer
		})(unsafe.Pointer(&tm))
		f.wall, f.ext = v.Field(0).Uint(), v.Field(1).Int()
		if tm.IsZero() {
			sb.WriteString("zero")
		} else {
			fmt.Fprint(sb, int64(tm.Sub(vs.W.Now)))
		}
		return
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Struct, reflect.Interface:
		if t == fsmType {
			if !v.IsNil() {
				fmt.Fprint(sb, (*stateless.StateMachine)(v.UnsafePointer()).MustState())
			}
			return
		}
		p := t
		if t.Kind() == reflect.Ptr {
			p = t.Elem()
		}
		if pp := p.PkgPath(); strings.Contains(pp, "/zzv/") || strings.Contains(pp, "go.uber.org/zap") || pp == "context" || pp == "reflect" ||
			pp == "sync" || strings.HasPrefix(pp, "net/http") || strings.Contains(pp, "qmuntal") || strings.Contains(pp, "/chi") || pp == "main" {
			sb.WriteString("<" + p.Name() + ">")
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		fmt.Fprint(sb, v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		fmt.Fprint(sb, v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		fmt.Fprint(sb, v.Uint())
	case reflect.Float32, reflect.Float64:
		fmt.Fprint(sb, v.Float())
	case reflect.String:
		fmt.Fprintf(sb, "%q", v.String())
	case reflect.Ptr:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		if n, ok := d.seen[v.Pointer()]; ok {
			fmt.Fprintf(sb, "#%d", n)
			return
		}
		d.seen[v.Pointer()] = len(d.seen)
		d.val(sb, v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			sb.WriteString("nil")
			return
		}
		d.val(sb, v.Elem(), depth+1)
	case reflect.Struct:
		sb.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			d.val(sb, v.Field(i), depth+1)
			sb.WriteByte(',')
		}
		sb.WriteString("}")
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(sb, "%x", v.Bytes())
			return
		}
		fallthrough
	case reflect.Array:
		sb.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			d.val(sb, v.Index(i), depth+1)
			sb.WriteByte(',')
		}
		sb.WriteString("]")
	case reflect.Map:
		var es []string
		it := v.MapRange()
		for it.Next() {
			var e strings.Builder
			d.val(&e, it.Key(), depth+1)
			e.WriteByte(':')
			d.val(&e, it.Value(), depth+1)
			es = append(es, e.String())
		}
		sort.Strings(es)
		sb.WriteString("map" + strings.Join(es, ";"))
	case reflect.Chan:
		fmt.Fprintf(sb, "chan%d", v.Len())
	default:
		sb.WriteString(t.Kind().String())
	}
}

// dbHash hashes the content of the stores of the world.
func dbHash(paths ...string) uint64 {
	h := fnv.New64a()
	var b [8]byte
	for _, p := range paths {
		s := leveldb.Lookup(p)
		if s == nil {
			continue
		}
		s.Each(func(k, v []byte) {
			binary.LittleEndian.PutUint32(b[:], uint32(len(k)))
			h.Write(b[:4])
			h.Write(k)
			binary.LittleEndian.PutUint32(b[:], uint32(len(v)))
			h.Write(b[:4])
			h.Write(v)
		})
	}
	return h.Sum64()
}

// worldHash combines storage content, in-memory state and the virtual time.
func worldHash(paths []string, objs ...any) uint64 {
	return H(dbHash(paths...), deepHash(objs...), vs.W.Now.UnixNano(), fmt.Sprint(vs.Deadlines()))
}
