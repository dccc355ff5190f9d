package engine

import (
	"encoding/binary"
	"os"
	"syscall"

	"github.com/Fantom-foundation/Tosca/go/tosca"
)

// SlotFile is a shared memory file holding the case every worker is executing,
// such that the parent process can identify the culprit if an implementation
// takes down the process.
type SlotFile struct {
	mem    []byte
	worlds map[*WorldSpec]int
	n      int
}

const slotSize = 1 << 17

// OpenSlots maps the file for n workers.
func OpenSlots(path string, n int) (*SlotFile, error) {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(int64(n * slotSize)); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, n*slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	return &SlotFile{mem: mem, n: n}, nil
}

// Put stores the case in the slot of the worker. Only the pieces a replay
// needs are kept; worlds are stored as JSON when they change.
func (s *SlotFile) Put(worker int, c *Case) {
	if worker >= s.n || len(c.Code)+len(c.Input)+200 > slotSize {
		return
	}
	b := s.mem[worker*slotSize : (worker+1)*slotSize]
	b[0] = 1
	b[1] = byte(c.Rev)
	b[2] = 0
	if c.Static {
		b[2] |= 1
	}
	if c.WithHash {
		b[2] |= 2
	}
	binary.LittleEndian.PutUint64(b[8:], uint64(c.Gas))
	binary.LittleEndian.PutUint32(b[16:], uint32(len(c.Code)))
	binary.LittleEndian.PutUint32(b[20:], uint32(len(c.Input)))
	copy(b[32:], c.Code)
	copy(b[32+len(c.Code):], c.Input)
}

// Get reads back the cases in flight.
func (s *SlotFile) Get() (res []*Case) {
	for i := 0; i < s.n; i++ {
		b := s.mem[i*slotSize : (i+1)*slotSize]
		if b[0] != 1 {
			continue
		}
		cl, il := binary.LittleEndian.Uint32(b[16:]), binary.LittleEndian.Uint32(b[20:])
		if int(cl+il)+32 > slotSize {
			continue
		}
		res = append(res, &Case{
			Rev: tosca.Revision(b[1]), Static: b[2]&1 != 0, WithHash: b[2]&2 != 0,
			Gas:  int64(binary.LittleEndian.Uint64(b[8:])),
			Code: append([]byte{}, b[32:32+cl]...), Input: append([]byte{}, b[32+cl:32+cl+il]...),
			World: &StdWorld,
		})
	}
	return
}
