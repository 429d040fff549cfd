package main

import (
	"os"
	"sync/atomic"
	"syscall"
	"unsafe"
)

// seenTable is the set of expanded states, shared by all workers: open addressing, 59 bits of hash and 5 bits of
// remaining depth per slot.
type seenTable struct{ t []uint64 }

const seenSlots = 1 << 23

func createSeen(path string) error {
	f, err := os.Create(path)
	if err != nil {
		return err
	}
	defer f.Close()
	return f.Truncate(seenSlots * 8)
}

func openSeen(path string) *seenTable {
	f, err := os.OpenFile(path, os.O_RDWR, 0)
	if err != nil {
		return nil
	}
	defer f.Close()
	b, err := syscall.Mmap(int(f.Fd()), 0, seenSlots*8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil
	}
	return &seenTable{unsafe.Slice((*uint64)(unsafe.Pointer(&b[0])), seenSlots)}
}

// visit reports whether the state was expanded before with at least this remaining depth; otherwise it is recorded.
func (s *seenTable) visit(h uint64, remaining int) bool {
	if remaining > 30 {
		remaining = 30
	}
	v := h&^31 | uint64(remaining+1)
	i := (h * 0x9E3779B97F4A7C15) >> (64 - 23)
	for n := 0; n < 64; n++ {
		p := &s.t[(i+uint64(n))%seenSlots]
		for {
			o := atomic.LoadUint64(p)
			if o == 0 {
				if atomic.CompareAndSwapUint64(p, 0, v) {
					return false
				}
				continue
			}
			if o&^31 != h&^31 {
				break
			}
			if o&31 >= v&31 {
				return true
			}
			if atomic.CompareAndSwapUint64(p, o, v) {
				return false
			}
		}
	}
	return false // table too full here: explore again
}
