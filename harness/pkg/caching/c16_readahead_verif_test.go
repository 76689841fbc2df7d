package caching_test

import (
	"fmt"
	"io"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"time"

	"golang.org/x/sync/semaphore"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

// vslicer records which blocks are prefetched and how many at a time.
type vslicer struct {
	bsize int64

	mu       sync.Mutex
	ahead    []int64
	inflight int
	most     int
	sliced   []int64
	gate     chan bool
}

func (s *vslicer) Bsize() int64 { return s.bsize }

func (s *vslicer) Slice(obj storage.Object, offset int64) caching.Slice {
	s.mu.Lock()
	s.sliced = append(s.sliced, offset)
	s.mu.Unlock()
	return &vslice{s, obj, offset}
}

type vslice struct {
	s   *vslicer
	obj storage.Object
	off int64
}

func (v *vslice) ReadAhead() {
	v.s.mu.Lock()
	v.s.ahead = append(v.s.ahead, v.off)
	v.s.inflight++
	if v.s.inflight > v.s.most {
		v.s.most = v.s.inflight
	}
	gate := v.s.gate
	v.s.mu.Unlock()
	if gate != nil {
		<-gate
	}
	v.s.mu.Lock()
	v.s.inflight--
	v.s.mu.Unlock()
}

func (v *vslice) Close() error                   { return nil }
func (v *vslice) Read([]byte) (int, error)       { return 0, io.EOF }
func (v *vslice) Seek(int64, int) (int64, error) { return 0, nil }
func (v *vslice) Size() int64 {
	n := v.obj.Size() - v.off
	if n > v.s.bsize {
		n = v.s.bsize
	}
	return n
}
func (v *vslice) ReadAt(p []byte, off int64) (int, error) {
	return v.obj.ReadAt(p, v.off+off)
}

// vrun follows the reads and says what may be prefetched.
type vrun struct {
	pos    int64
	length int64
	seen   map[int64]bool
}

func (v *vrun) read(off int64, n int) {
	if v.pos != off || v.seen == nil {
		if v.pos != off {
			v.length = 0
		}
		v.seen = map[int64]bool{}
	}
	v.length += int64(n)
	v.pos = off + int64(n)
}

func (v *vrun) judge(t *testing.T, in string, blocks []int64, size, bsize, window, off int64) bool {
	allowed := (v.length + bsize - 1) / bsize
	if int64(len(blocks)) > allowed {
		vfail(t, "c16:more", "%s prefetches %d blocks after reading %d bytes sequentially", in, len(blocks), v.length)
		return false
	}
	for _, o := range blocks {
		if o < 0 || o%bsize != 0 || o >= size {
			vfail(t, "c16:outside", "%s prefetches offset %d", in, o)
			return false
		}
		b, cur := o/bsize, off/bsize
		if b <= cur || b > cur+window {
			vfail(t, "c16:window", "%s prefetches block %d, the read starts in block %d", in, b, cur)
			return false
		}
		if v.seen[b] {
			vfail(t, "c16:twice", "%s prefetches block %d again", in, b)
			return false
		}
		v.seen[b] = true
	}
	return true
}

// nextRead picks reads that are mostly sequential.
func nextRead(r *rand.Rand, pos, size int64) (int64, int) {
	off := pos
	if r.Intn(4) == 0 || off >= size {
		off = r.Int63n(size + 1)
	}
	n := int64(r.Intn(60))
	if r.Intn(6) == 0 {
		n = 0
	}
	if n > size-off {
		n = size - off
	}
	return off, int(n)
}

func TestVerif_C16_Controller(t *testing.T) {
	r := vrand()
	rounds := 1500
	if vthorough() {
		rounds = 40000
	}
	cases := 0
	for k := 0; k < rounds; k++ {
		bsize := int64(1 + r.Intn(16))
		size := int64(r.Intn(400))
		if k%7 == 0 {
			size = size / bsize * bsize
		}
		if k%11 == 0 {
			bsize, size = 1<<20, r.Int63n(1<<45)
		}
		window, tokens := r.Intn(8), int64(r.Intn(6))
		s := &vslicer{bsize: bsize}
		sem := semaphore.NewWeighted(tokens)
		c := caching.NewReadAheadController(window, sem, s, &vsource{url: "u:x", size: size})
		run := &vrun{}
		hist := fmt.Sprintf("object of %d bytes in blocks of %d, window %d, %d tokens:", size, bsize, window, tokens)
		for q := 0; q < 15; q++ {
			cases++
			off, n := nextRead(r, run.pos, size)
			if k%11 == 0 {
				n = r.Intn(1 << 22)
			}
			hist += fmt.Sprintf(" %d@%d", n, off)
			run.read(off, n)
			s.mu.Lock()
			before := len(s.ahead)
			s.mu.Unlock()
			if !vwithin(t, "c16:update", hist, 20*time.Second, func() { c.Update(off, n) }) {
				break
			}
			// all tokens come back
			idle := false
			for i := 0; i < 20000; i++ {
				if sem.TryAcquire(tokens) {
					idle = true
					break
				}
				runtime.Gosched()
				if i > 1000 {
					time.Sleep(time.Millisecond)
				}
			}
			if !idle {
				vfail(t, "c16:tokens", "%s: the tokens are not returned", hist)
				break
			}
			sem.Release(tokens)
			s.mu.Lock()
			blocks := append([]int64(nil), s.ahead[before:]...)
			most := s.most
			s.mu.Unlock()
			if int64(most) > tokens {
				vfail(t, "c16:budget", "%s: %d prefetches at a time", hist, most)
				break
			}
			if !run.judge(t, hist, blocks, size, bsize, int64(window), off) {
				break
			}
		}
	}
	vcases("C16.updates", cases)
}

// Prefetches that do not finish hold their tokens and never block a read.
func TestVerif_C16_Budget(t *testing.T) {
	r := vrand()
	rounds := 300
	if vthorough() {
		rounds = 6000
	}
	for k := 0; k < rounds; k++ {
		bsize := int64(1 + r.Intn(8))
		size := int64(200 + r.Intn(400))
		window, tokens := 1+r.Intn(20), int64(r.Intn(5))
		s := &vslicer{bsize: bsize, gate: make(chan bool)}
		sem := semaphore.NewWeighted(tokens)
		src := []*vsource{{url: "u:a", size: size}, {url: "u:b", size: size}}
		cs := []*caching.ReadAheadController{
			caching.NewReadAheadController(window, sem, s, src[0]),
			caching.NewReadAheadController(window, sem, s, src[1]),
		}
		pos := []int64{0, 0}
		in := fmt.Sprintf("two objects sharing %d tokens, blocks of %d, window %d", tokens, bsize, window)
		ok := vwithin(t, "c16:blocked", in, 20*time.Second, func() {
			for q := 0; q < 20; q++ {
				i := r.Intn(2)
				n := r.Intn(30)
				cs[i].Update(pos[i], n)
				pos[i] += int64(n)
			}
		})
		if ok {
			time.Sleep(200 * time.Microsecond)
			s.mu.Lock()
			most := s.most
			s.mu.Unlock()
			if int64(most) > tokens {
				vfail(t, "c16:budget", "%s: %d prefetches at a time", in, most)
			}
		}
		close(s.gate)
		idle := false
		for i := 0; i < 20000 && !idle; i++ {
			idle = sem.TryAcquire(tokens)
			runtime.Gosched()
			if i > 1000 {
				time.Sleep(time.Millisecond)
			}
		}
		if !idle {
			vfail(t, "c16:tokens", "%s: the tokens are not returned", in)
		}
	}
	vcases("C16.budgets", rounds)
}

// The same through a cache: what is prefetched exists, lies after a read and
// within its window.
func TestVerif_C16_Cache(t *testing.T) {
	r := vrand()
	rounds := 1000
	if vthorough() {
		rounds = 10000
	}
	for k := 0; k < rounds; k++ {
		bsize := int64(1 + r.Intn(16))
		size := int64(1 + r.Intn(300))
		window := r.Intn(6)
		s := &vslicer{bsize: bsize}
		src := &vsource{url: "u:x", id: 3, size: size}
		o := caching.NewCache(s, window, 1000).WithCaching(src)
		hist := fmt.Sprintf("cached object of %d bytes in blocks of %d, window %d:", size, bsize, window)
		pos := int64(0)
		allowed := map[int64]bool{}
		for q := 0; q < 10; q++ {
			off, n := nextRead(r, pos, size)
			if n == 0 || off >= size {
				continue
			}
			hist += fmt.Sprintf(" %d@%d", n, off)
			for w := int64(1); w <= int64(window); w++ {
				allowed[(off/bsize+w)*bsize] = true
			}
			got, err := o.ReadAt(make([]byte, n), off)
			if err != nil && err != io.EOF {
				vfail(t, "c16:read", "%s fails: %v", hist, err)
				break
			}
			pos = off + int64(got)
		}
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
		s.mu.Lock()
		for _, o := range s.ahead {
			if o >= size || !allowed[o] {
				vfail(t, "c16:cache", "%s prefetches offset %d", hist, o)
				break
			}
		}
		s.mu.Unlock()
	}
	vcases("C16.cached", rounds)
}
