package storage_test

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
)

var errInjected = errors.New("injected failure")

// vpart is an object with generated content; it can fail, come up short or
// record what is asked of it.
type vpart struct {
	id   int64
	size int64
	pos  int64

	mu     sync.Mutex
	fail   bool  // every read fails
	short  int64 // a positive value: reads reaching this offset stop there
	quiet  bool  // short reads come with a nil error
	closed int
}

func (v *vpart) at(off int64) byte {
	x := uint64(off)*0x9E3779B97F4A7C15 + uint64(v.id)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	return byte(x >> 32)
}

func (v *vpart) Close() error { v.closed++; return nil }
func (v *vpart) Size() int64  { return v.size }
func (v *vpart) URL() string  { return fmt.Sprintf("vpart:%d", v.id) }

func (v *vpart) Read(p []byte) (int, error) {
	n, err := v.ReadAt(p, v.pos)
	v.pos += int64(n)
	return n, err
}

func (v *vpart) ReadAt(p []byte, off int64) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	if len(p) == 0 {
		return 0, nil
	}
	if off < 0 {
		return 0, errors.New("negative offset")
	}
	if v.fail {
		return 0, errInjected
	}
	if off >= v.size {
		return 0, io.EOF
	}
	end := off + int64(len(p))
	if end > v.size {
		end = v.size
	}
	err := error(nil)
	if v.short > 0 && end > v.short {
		end = v.short
		if end < off {
			end = off
		}
		if !v.quiet {
			err = io.EOF
		}
	}
	n := int(end - off)
	for i := 0; i < n; i++ {
		p[i] = v.at(off + int64(i))
	}
	if n < len(p) && !v.quiet {
		err = io.EOF
	}
	return n, err
}

func (v *vpart) Seek(offset int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		offset += v.pos
	case io.SeekEnd:
		offset += v.size
	}
	if offset < 0 {
		offset = 0
	}
	if offset > v.size {
		offset = v.size
	}
	v.pos = offset
	return offset, nil
}

// bytesOf renders a range of the joined content of parts.
func bytesOf(parts []*vpart, off, n int64) []byte {
	var out []byte
	base := int64(0)
	for _, p := range parts {
		for int64(len(out)) < n && off+int64(len(out)) < base+p.size {
			out = append(out, p.at(off+int64(len(out))-base))
		}
		base += p.size
	}
	return out
}

func vparts(r *rand.Rand, max int, maxSize int64) []*vpart {
	ps := make([]*vpart, r.Intn(max+1))
	for i := range ps {
		ps[i] = &vpart{id: r.Int63(), size: r.Int63n(maxSize + 1)}
		if r.Intn(4) == 0 {
			ps[i].size = 0
		}
	}
	return ps
}

func sizesOf(ps []*vpart) string {
	s := "parts of"
	for _, p := range ps {
		s += fmt.Sprintf(" %d", p.size)
	}
	return s + " bytes"
}

func vcontent(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
