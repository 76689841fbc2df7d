package caching_test

import (
	"errors"
	"io"
	"sync"
)

var errInjected = errors.New("injected failure")

// vsource is an object with generated content that can fail on demand.
type vsource struct {
	url  string
	id   int64
	size int64

	mu    sync.Mutex
	calls int
	fail  func(call int, off int64) bool
	trunc int64 // a positive value: content really ends here
	log   [][2]int64
}

func (v *vsource) at(off int64) byte {
	x := uint64(off)*0x9E3779B97F4A7C15 + uint64(v.id)*0xBF58476D1CE4E5B9
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	return byte(x >> 32)
}

func (v *vsource) content(off, n int64) []byte {
	var b []byte
	for i := off; i < off+n && i < v.size; i++ {
		b = append(b, v.at(i))
	}
	return b
}

func (v *vsource) Close() error                              { return nil }
func (v *vsource) Size() int64                               { return v.size }
func (v *vsource) URL() string                               { return v.url }
func (v *vsource) Read(p []byte) (int, error)                { return 0, errors.New("not used") }
func (v *vsource) Seek(off int64, whence int) (int64, error) { return 0, errors.New("not used") }

func (v *vsource) ReadAt(p []byte, off int64) (int, error) {
	v.mu.Lock()
	defer v.mu.Unlock()
	v.calls++
	v.log = append(v.log, [2]int64{off, int64(len(p))})
	if v.fail != nil && v.fail(v.calls, off) {
		// some of the bytes may arrive before the failure
		for i := 0; i < len(p)/2; i++ {
			p[i] = 0xEE
		}
		return len(p) / 2, errInjected
	}
	size := v.size
	if v.trunc > 0 && v.trunc < size {
		size = v.trunc
	}
	if off >= size {
		return 0, io.EOF
	}
	n := len(p)
	if int64(n) > size-off {
		n = int(size - off)
	}
	for i := 0; i < n; i++ {
		p[i] = v.at(off + int64(i))
	}
	if n < len(p) {
		return n, io.EOF
	}
	return n, nil
}
