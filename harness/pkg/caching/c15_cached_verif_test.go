package caching_test

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

var _ storage.Object = (*vsource)(nil)

// vcache builds a cache over memory or disk; done waits for background writes.
func vcache(t *testing.T, r *rand.Rand, disk bool) (c caching.Cache, s caching.Slicer, desc string, done func()) {
	bs := int64(1 + r.Intn(16))
	window, tokens := r.Intn(5), int64(1+r.Intn(4))
	done = func() {}
	if disk {
		root, err := ioutil.TempDir("", "verif")
		if err != nil {
			t.Fatal(err)
		}
		ds := caching.NewDiskSlicer(root, bs)
		s, desc = ds, fmt.Sprintf("disk cache of %d byte blocks", bs)
		done = func() {
			ds.Wait()
			os.RemoveAll(root)
		}
	} else {
		n := int64(1 + r.Intn(6))
		ms, err := caching.NewMemorySlicer(bs, n)
		if err != nil {
			t.Fatal(err)
		}
		s, desc = ms, fmt.Sprintf("memory cache of %d blocks of %d bytes", n, bs)
	}
	desc += fmt.Sprintf(", window %d", window)
	return caching.NewCache(s, window, tokens), s, desc, done
}

// URLs that share prefixes and contain the characters cache keys are made of.
var vurls = []string{"u:a", "u:ab", "u:a[0,8)", "u:a[0,", "u:", "u:\"a\"", "u:a%20b", "u:A", "u:a[0,8)[0,8)", "u:é\xff", "u:a\",\"off\":0", "u:日本"}

func vsources(r *rand.Rand) []*vsource {
	var out []*vsource
	for _, i := range r.Perm(len(vurls))[:1+r.Intn(5)] {
		out = append(out, &vsource{url: vurls[i], id: r.Int63(), size: int64(r.Intn(80))})
	}
	return out
}

// compare judges one read through the cache.
func compare(t *testing.T, key, in string, v *vsource, off int64, buf []byte, n int, err error, mayFail bool) bool {
	want := v.content(off, int64(len(buf)))
	if n < 0 || n > len(want) || !bytes.Equal(buf[:n], want[:n]) {
		vfail(t, key+":bytes", "%s returns %d bytes %x, %v; the object has %x", in, n, buf[:n], err, want)
		return false
	}
	if len(buf) == 0 {
		return true
	}
	if off >= v.size {
		if err != io.EOF {
			vfail(t, key+":end", "%s past the end returns %v", in, err)
			return false
		}
		return true
	}
	if n == len(want) && (err == nil || err == io.EOF && off+int64(n) == v.size) {
		return true
	}
	if !mayFail {
		vfail(t, key+":error", "%s returns %d of %d bytes, %v", in, n, len(want), err)
		return false
	}
	if err == nil || err == io.EOF {
		vfail(t, key+":hidden", "%s returns %d of %d bytes with error %v", in, n, len(want), err)
		return false
	}
	return true
}

func TestVerif_C15_History(t *testing.T) {
	r := vrand()
	rounds := 500
	if vthorough() {
		rounds = 15000
	}
	cases := 0
	for k := 0; k < rounds; k++ {
		disk := k%5 == 4
		c, sl, desc, done := vcache(t, r, disk)
		srcs := vsources(r)
		var objs []storage.Object
		for _, v := range srcs {
			objs = append(objs, c.WithCaching(v))
		}
		failing := r.Intn(2) == 0
		hist := desc + ":"
		ok := vwithin(t, "c15:history", desc, 60*time.Second, func() {
			for q := 0; q < 25; q++ {
				cases++
				i := r.Intn(len(srcs))
				v := srcs[i]
				if failing && r.Intn(3) == 0 {
					p := r.Intn(3)
					v.mu.Lock()
					switch p {
					case 0:
						v.fail = nil
						hist += fmt.Sprintf(" [%q works]", v.url)
					case 1:
						v.fail = func(int, int64) bool { return true }
						hist += fmt.Sprintf(" [%q fails]", v.url)
					case 2:
						at := v.calls + 1 + r.Intn(3)
						v.fail = func(call int, _ int64) bool { return call == at }
						hist += fmt.Sprintf(" [%q fails once]", v.url)
					}
					v.mu.Unlock()
				}
				if r.Intn(6) == 0 && v.size > 0 {
					// what the read-ahead does
					b := r.Int63n((v.size + sl.Bsize() - 1) / sl.Bsize())
					hist += fmt.Sprintf(" ReadAhead(%q, block %d)", v.url, b)
					sl.Slice(v, b*sl.Bsize()).ReadAhead()
				}
				n, off := r.Intn(30), r.Int63n(v.size+3)
				buf := make([]byte, n)
				hist += fmt.Sprintf(" Read(%q of %d, %d at %d)", v.url, v.size, n, off)
				got, err := objs[i].ReadAt(buf, off)
				if !compare(t, "c15:read", hist, v, off, buf, got, err, failing) {
					return
				}
			}
			// once the sources work again every byte is there
			for i, v := range srcs {
				v.mu.Lock()
				v.fail = nil
				v.mu.Unlock()
				cases++
				buf := make([]byte, v.size+1)
				// a prefetch started before may still fail
				for try := 0; try < 3; try++ {
					got, err := objs[i].ReadAt(buf, 0)
					if compare(t, "c15:after", fmt.Sprintf("%s then all of %q", hist, v.url), v, 0, buf, got, err, try < 2 && failing) && (err == nil || v.size == 0) {
						break
					}
				}
			}
		})
		done()
		_ = ok
	}
	vcases("C15.reads", cases)
}

// A source that ends before its size says so is an error, never content.
func TestVerif_C15_Truncated(t *testing.T) {
	r := vrand()
	rounds := 400
	for k := 0; k < rounds; k++ {
		c, _, desc, done := vcache(t, r, k%5 == 4)
		v := &vsource{url: "u:t", id: r.Int63(), size: int64(2 + r.Intn(60))}
		v.trunc = 1 + r.Int63n(v.size-1)
		o := c.WithCaching(v)
		for q := 0; q < 6; q++ {
			off := r.Int63n(v.size)
			buf := make([]byte, 1+r.Intn(40))
			in := fmt.Sprintf("%s: %d bytes at %d of an object of %d bytes that ends at %d", desc, len(buf), off, v.size, v.trunc)
			var got int
			var err error
			if !vwithin(t, "c15:truncated", in, 20*time.Second, func() { got, err = o.ReadAt(buf, off) }) {
				break
			}
			end := off + int64(len(buf))
			if end > v.size {
				end = v.size
			}
			if end > v.trunc {
				if err == nil {
					vfail(t, "c15:truncated", "%s returns %d bytes without an error", in, got)
				}
				good := v.content(off, v.trunc-off)
				if got > len(good) || !bytes.Equal(buf[:got], good[:got]) {
					vfail(t, "c15:truncated-bytes", "%s returns bytes that do not exist", in)
				}
			}
		}
		done()
	}
	vcases("C15.truncated", rounds)
}

type always struct{ left int }

func (a *always) GcNeeded(*syscall.Statfs_t) bool { a.left--; return a.left >= 0 }

// Eviction of disk entries between and during reads.
func TestVerif_C15_Eviction(t *testing.T) {
	r := vrand()
	rounds := 30
	if vthorough() {
		rounds = 600
	}
	for k := 0; k < rounds; k++ {
		root, err := ioutil.TempDir("", "verif")
		if err != nil {
			t.Fatal(err)
		}
		ds := caching.NewDiskSlicer(root, int64(1+r.Intn(16)))
		c := caching.NewCache(ds, r.Intn(3), 2)
		v := &vsource{url: "u:e", id: r.Int63(), size: int64(20 + r.Intn(60))}
		o := c.WithCaching(v)
		stop := make(chan bool)
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Millisecond):
					ds.Gc(&always{3})
				}
			}
		}()
		for q := 0; q < 20; q++ {
			off := r.Int63n(v.size)
			buf := make([]byte, 1+r.Intn(40))
			got, err := o.ReadAt(buf, off)
			if !compare(t, "c15:evict", fmt.Sprintf("disk cache under eviction: %d bytes at %d of %d", len(buf), off, v.size), v, off, buf, got, err, false) {
				break
			}
		}
		close(stop)
		wg.Wait()
		time.Sleep(time.Millisecond)
		ds.Wait()
		if err := ds.CheckIntegrity(); err != nil {
			vfail(t, "c15:integrity", "entries left in the disk cache are bad: %v", err)
		}
		os.RemoveAll(root)
	}
	vcases("C15.evictions", rounds)
}

// Readers that run at the same time on objects sharing few buffers.
func TestVerif_C15_Concurrent(t *testing.T) {
	r := vrand()
	rounds := 150
	if vthorough() {
		rounds = 4000
	}
	for k := 0; k < rounds; k++ {
		c, _, desc, done := vcache(t, r, k%10 == 9)
		srcs := vsources(r)
		failing := k%2 == 1
		if failing {
			for _, v := range srcs {
				m := 2 + r.Intn(4)
				v.fail = func(call int, _ int64) bool { return call%m == 0 }
			}
		}
		vwithin(t, "c15:concurrent", desc, 60*time.Second, func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				seed := r.Int63()
				wg.Add(1)
				go func() {
					defer wg.Done()
					r := rand.New(rand.NewSource(seed))
					for q := 0; q < 20; q++ {
						v := srcs[r.Intn(len(srcs))]
						o := c.WithCaching(v)
						buf := make([]byte, r.Intn(30))
						off := r.Int63n(v.size + 2)
						in := fmt.Sprintf("%s, 8 readers on %d objects: %d bytes at %d of %q (%d bytes)", desc, len(srcs), len(buf), off, v.url, v.size)
						vguard(t, "c15:concurrent", in, func() {
							got, err := o.ReadAt(buf, off)
							compare(t, "c15:concurrent", in, v, off, buf, got, err, failing)
						})
					}
				}()
			}
			wg.Wait()
		})
		done()
	}
	vcases("C15.concurrent", rounds*160)
}

// Objects whose URLs could be taken for the URL and a place of another.
func TestVerif_C15_Names(t *testing.T) {
	r := vrand()
	var urls []string
	for _, sep := range []string{"", "-", "_", "+", "/", ":", "#", "?", "%", "[", "@", ",", ".", " ", "|", "&", "="} {
		for _, n := range []string{"0", "1", "2", "10", "20", "0,10", "10,10", "10,20)"} {
			urls = append(urls, "u:x"+sep+n)
		}
	}
	urls = append(urls, "u:x", "U:x", "u:X", "u:x[", "u:y")
	cases := 0
	for k := 0; k < 8; k++ {
		bs := []int64{10, 1, 5, 2}[k%4]
		var sl caching.Slicer
		desc := fmt.Sprintf("memory cache of %d byte blocks", bs)
		done := func() {}
		if k >= 4 {
			root, err := ioutil.TempDir("", "verif")
			if err != nil {
				t.Fatal(err)
			}
			ds := caching.NewDiskSlicer(root, bs)
			sl, desc = ds, fmt.Sprintf("disk cache of %d byte blocks", bs)
			done = func() {
				ds.Wait()
				os.RemoveAll(root)
			}
		} else {
			ms, err := caching.NewMemorySlicer(bs, 1<<14)
			if err != nil {
				t.Fatal(err)
			}
			sl = ms
		}
		c := caching.NewCache(sl, 0, 1)
		var srcs []*vsource
		for _, u := range urls {
			srcs = append(srcs, &vsource{url: u, id: r.Int63(), size: 3 * bs})
		}
		for pass := 0; pass < 2; pass++ {
			for _, i := range r.Perm(len(srcs)) {
				v := srcs[i]
				buf := make([]byte, v.size)
				cases++
				got, err := c.WithCaching(v).ReadAt(buf, 0)
				if !compare(t, "c15:names", fmt.Sprintf("%s: all of %q among objects of similar names", desc, v.url), v, 0, buf, got, err, false) {
					pass = 2
					break
				}
			}
		}
		done()
	}
	vcases("C15.names", cases)
}
