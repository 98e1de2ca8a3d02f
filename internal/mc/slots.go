package mc

import (
	"encoding/binary"
	"os"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// SlotSize is the size of one mmapped slot.
const SlotSize = 64 * 1024

// Layout: [0:8) seq (odd: running), [8:16) start unix nanos, [16:20) len(scenario),
// [20:24) len(prefix), then the scenario name and the prefix as uint16s.
type mslot struct{ b []byte }

func (s *mslot) seq() *uint64 { return (*uint64)(unsafe.Pointer(&s.b[0])) }

func (s *mslot) Begin(scen string, prefix []uint16) {
	binary.LittleEndian.PutUint64(s.b[8:], uint64(time.Now().UnixNano()))
	binary.LittleEndian.PutUint32(s.b[16:], uint32(len(scen)))
	n := len(prefix)
	if max := (SlotSize - 24 - 256) / 2; n > max {
		n = max
	}
	binary.LittleEndian.PutUint32(s.b[20:], uint32(n))
	copy(s.b[24:], scen)
	off := 24 + len(scen)
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(s.b[off+2*i:], prefix[i])
	}
	atomic.AddUint64(s.seq(), 1)
}

func (s *mslot) End() { atomic.AddUint64(s.seq(), 1) }

// MapSlots maps (creating if needed) n slots in file.
func MapSlots(file string, n int) ([]byte, []Slot, error) {
	f, err := os.OpenFile(file, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(n * SlotSize)); err != nil {
		return nil, nil, err
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, n*SlotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, nil, err
	}
	var out []Slot
	for i := 0; i < n; i++ {
		out = append(out, &mslot{b[i*SlotSize : (i+1)*SlotSize]})
	}
	return b, out, nil
}

// ReadSlot decodes slot i of the mapping.
func ReadSlot(b []byte, i int) (seq uint64, start time.Time, scen string, prefix []int, running bool) {
	s := &mslot{b[i*SlotSize : (i+1)*SlotSize]}
	seq = atomic.LoadUint64(s.seq())
	start = time.Unix(0, int64(binary.LittleEndian.Uint64(s.b[8:])))
	sl := int(binary.LittleEndian.Uint32(s.b[16:]))
	n := int(binary.LittleEndian.Uint32(s.b[20:]))
	if sl > 256 || n > SlotSize/2 || 24+sl+2*n > SlotSize {
		return
	}
	scen = string(s.b[24 : 24+sl])
	for j := 0; j < n; j++ {
		prefix = append(prefix, int(binary.LittleEndian.Uint16(s.b[24+sl+2*j:])))
	}
	running = seq%2 == 1
	return
}
