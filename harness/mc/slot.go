package mc

import (
	"encoding/binary"
	"encoding/json"
	"os"
	"path/filepath"
	"syscall"
	"time"
)

// slot is the memory shared by a shard with its supervisor: the item being
// evaluated and the time it started, so that crashes and hangs can be
// attributed.
type slot struct {
	mem []byte
	dir string
	vf  *os.File
}

const slotSize = 1 << 16

func openSlot(dir, name string) (*slot, error) {
	f, err := os.OpenFile(filepath.Join(dir, name+".slot"), os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	if err := f.Truncate(slotSize); err != nil {
		return nil, err
	}
	mem, err := syscall.Mmap(int(f.Fd()), 0, slotSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		return nil, err
	}
	vf, err := os.OpenFile(filepath.Join(dir, name+".viol"), os.O_RDWR|os.O_CREATE|os.O_APPEND, 0o644)
	return &slot{mem, dir, vf}, err
}

func (s *slot) set(i int, kind string, f []string) {
	if s == nil {
		return
	}
	m := s.mem
	binary.LittleEndian.PutUint64(m[0:], 0)
	binary.LittleEndian.PutUint64(m[8:], uint64(i))
	o := 24
	put := func(x string) {
		if o+4+len(x) > len(m) {
			x = ""
			if o+4 > len(m) {
				return
			}
		}
		binary.LittleEndian.PutUint32(m[o:], uint32(len(x)))
		copy(m[o+4:], x)
		o += 4 + len(x)
	}
	put(kind)
	for _, x := range f {
		put(x)
	}
	binary.LittleEndian.PutUint64(m[16:], uint64(1+len(f)))
	binary.LittleEndian.PutUint64(m[0:], uint64(time.Now().UnixNano()))
}

func (s *slot) done() {
	if s != nil {
		binary.LittleEndian.PutUint64(s.mem[0:], 0)
	}
}

func (s *slot) get() (start time.Time, i int, it Item, ok bool) {
	m := s.mem
	t := binary.LittleEndian.Uint64(m[0:])
	if t == 0 {
		return
	}
	i = int(binary.LittleEndian.Uint64(m[8:]))
	n := int(binary.LittleEndian.Uint64(m[16:]))
	o := 24
	for k := 0; k < n && o+4 <= len(m); k++ {
		l := int(binary.LittleEndian.Uint32(m[o:]))
		if l < 0 || o+4+l > len(m) {
			return
		}
		x := string(m[o+4 : o+4+l])
		o += 4 + l
		if k == 0 {
			it.Kind = x
		} else {
			it.F = append(it.F, x)
		}
	}
	return time.Unix(0, int64(t)), i, it, true
}

func (s *slot) violation(v Violation) {
	if s == nil {
		return
	}
	b, _ := json.Marshal(v)
	s.vf.Write(append(b, '\n'))
}
