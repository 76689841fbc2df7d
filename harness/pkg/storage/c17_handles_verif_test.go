package storage_test

import (
	"bytes"
	"context"
	"encoding/base64"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"os"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/countio"
	"github.com/NVIDIA/vdisc/pkg/storage"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"
)

type handle interface {
	io.Reader
	io.ReaderAt
	io.Seeker
}

// vhandle is one kind of handle over known content.
type vhandle struct {
	kind string
	h    handle
	want []byte
	// transferred returns the handle's own byte count
	transferred func() int64
	count       int64
}

func ramObject(r *rand.Rand, n int, limit int64) (storage.Object, []byte, error) {
	d := ramdriver.NewDriver()
	b := vcontent(r, n)
	w, err := d.Create(context.Background(), "ram:x")
	if err != nil {
		return nil, nil, err
	}
	w.Write(b)
	if _, err := w.Commit(); err != nil {
		return nil, nil, err
	}
	o, err := d.Open(context.Background(), "ram:x", limit)
	if limit >= 0 && limit < int64(n) {
		b = b[:limit]
	}
	return o, b, err
}

func dataObject(r *rand.Rand, n int) (storage.Object, []byte, error) {
	b := vcontent(r, n)
	o, err := storage.Open("data:application/octet-stream;base64," + base64.StdEncoding.EncodeToString(b))
	return o, b, err
}

// diskRoot is created once; entries of different objects share it.
var diskRoot string

func vhandles(r *rand.Rand) (hs []*vhandle, err error) {
	add := func(kind string, h handle, want []byte, err2 error) {
		if err2 != nil && err == nil {
			err = fmt.Errorf("%s: %v", kind, err2)
		}
		hs = append(hs, &vhandle{kind: kind, h: h, want: want})
	}
	n := r.Intn(40)
	if r.Intn(5) == 0 {
		n = 0
	}
	o, b, e := ramObject(r, n, -1)
	add("memory object", o, b, e)
	o, b, e = ramObject(r, n, int64(r.Intn(45)))
	add("memory object opened with a size", o, b, e)
	o, b, e = dataObject(r, n)
	add("data object", o, b, e)
	o, e = storage.Open(fmt.Sprintf("zero:%d", n))
	add("zero object", o, make([]byte, n), e)
	o, b, _ = ramObject(r, n, -1)
	lo := r.Intn(n + 1)
	hi := lo + r.Intn(n-lo+1)
	add("slice", storage.Slice(o, int64(lo), int64(hi-lo)), b[lo:hi], nil)
	o, _ = storage.Open(fmt.Sprintf("zero:%d", n))
	add("slice of zeros", storage.Slice(o, int64(lo), int64(hi-lo)), make([]byte, hi-lo), nil)
	o, b, _ = ramObject(r, n, -1)
	lo2 := r.Intn(hi - lo + 1)
	hi2 := lo2 + r.Intn(hi-lo-lo2+1)
	add("slice of a slice", storage.Slice(storage.Slice(o, int64(lo), int64(hi-lo)), int64(lo2), int64(hi2-lo2)), b[lo:hi][lo2:hi2], nil)
	o, b, _ = ramObject(r, n, -1)
	add("renamed object", storage.WithURL(o, "x:y"), b, nil)
	o, b, _ = ramObject(r, n, -1)
	cr := countio.NewReaderAtSeeker(o)
	add("counting object", cr, b, nil)
	hs[len(hs)-1].transferred = cr.BytesRead
	o, b, _ = ramObject(r, n, -1)
	total := new(int64)
	add("atomically counting object", countio.NewReaderAtSeekerWithAtomicCounter(o, total), b, nil)
	hs[len(hs)-1].transferred = func() int64 { return *total }
	o, b, _ = ramObject(r, n, -1)
	add("concatenation", storage.Concat(storage.Slice(o, 0, int64(lo)), storage.Slice(o, int64(lo), int64(n-lo))), b, nil)

	bs := int64(1 + r.Intn(12))
	ms, e := caching.NewMemorySlicer(bs, int64(1+r.Intn(5)))
	if e != nil {
		return nil, e
	}
	o, b, _ = ramObject(r, n, -1)
	add(fmt.Sprintf("object in a memory cache of %d byte blocks", bs), caching.NewCache(ms, r.Intn(4), int64(1+r.Intn(3))).WithCaching(storage.WithURL(o, fmt.Sprintf("u:%d", r.Int63()))), b, nil)
	o, b, _ = ramObject(r, n, -1)
	at := int64(r.Intn(n + 1))
	end := at + bs
	if end > int64(n) {
		end = int64(n)
	}
	add(fmt.Sprintf("memory cache slice of up to %d bytes", bs), ms.Slice(storage.WithURL(o, fmt.Sprintf("u:%d", r.Int63())), at), b[at:end], nil)

	if diskRoot != "" {
		ds := caching.NewDiskSlicer(diskRoot, bs)
		o, b, _ = ramObject(r, n, -1)
		add(fmt.Sprintf("object in a disk cache of %d byte blocks", bs), caching.NewCache(ds, r.Intn(4), int64(1+r.Intn(3))).WithCaching(storage.WithURL(o, fmt.Sprintf("u:%d", r.Int63()))), b, nil)
		o, b, _ = ramObject(r, n, -1)
		add(fmt.Sprintf("disk cache slice of up to %d bytes", bs), ds.Slice(storage.WithURL(o, fmt.Sprintf("u:%d", r.Int63())), at), b[at:end], nil)
	}
	return hs, err
}

// exercise runs a history of operations against the expected content.
func exercise(t *testing.T, r *rand.Rand, v *vhandle, ops int) {
	size := int64(len(v.want))
	hist := fmt.Sprintf("%s of %d bytes:", v.kind, size)
	if s, ok := v.h.(interface{ Size() int64 }); ok && s.Size() != size {
		vfail(t, "c17:size", "%s has size %d", hist, s.Size())
		return
	}
	pos := int64(0)
	for i := 0; i < ops; i++ {
		switch r.Intn(3) {
		case 0:
			n := r.Intn(16)
			buf := make([]byte, n)
			hist += fmt.Sprintf(" Read(%d)", n)
			got, err := v.h.Read(buf)
			v.count += int64(got)
			if !judge(t, "c17:read", hist, v.want, buf, pos, got, err, false) {
				return
			}
			pos += int64(got)
		case 1:
			n, off := r.Intn(16), r.Int63n(size+8)
			buf := make([]byte, n)
			hist += fmt.Sprintf(" ReadAt(%d, %d)", n, off)
			got, err := v.h.ReadAt(buf, off)
			v.count += int64(got)
			if !judge(t, "c17:readat", hist, v.want, buf, off, got, err, true) {
				return
			}
		default:
			o, w := r.Int63n(2*size+10)-size-4, r.Intn(3)
			target := o
			if w == io.SeekCurrent {
				target += pos
			} else if w == io.SeekEnd {
				target += size
			}
			hist += fmt.Sprintf(" Seek(%d, %d)", o, w)
			got, err := v.h.Seek(o, w)
			if err != nil {
				if target >= 0 {
					vfail(t, "c17:seek-refused", "%s fails: %v", hist, err)
					return
				}
				break
			}
			clamped := target
			if clamped < 0 {
				clamped = 0
			}
			if clamped > size {
				clamped = size
			}
			if got < 0 || got != target && got != clamped {
				vfail(t, "c17:seek", "%s returns %d instead of %d", hist, got, clamped)
				return
			}
			pos = got
		}
		if v.transferred != nil && v.transferred() != v.count {
			vfail(t, "c17:count", "%s: the counter says %d, %d bytes were read", hist, v.transferred(), v.count)
			return
		}
	}
}

func judge(t *testing.T, key, hist string, want, buf []byte, pos int64, got int, err error, full bool) bool {
	size := int64(len(want))
	if got < 0 || got > len(buf) {
		vfail(t, key+":count", "%s returns %d", hist, got)
		return false
	}
	if pos >= size {
		if got != 0 || len(buf) > 0 && err != io.EOF {
			vfail(t, key+":eof", "%s at %d of %d returns %d, %v instead of end of file", hist, pos, size, got, err)
			return false
		}
		return true
	}
	left := want[pos:]
	if got > len(left) || !bytes.Equal(buf[:got], left[:got]) {
		vfail(t, key+":bytes", "%s at %d returns %x, the content there is %x", hist, pos, buf[:got], left)
		return false
	}
	n := len(buf)
	if n > len(left) {
		n = len(left)
	}
	if got < n && (full || got == 0) {
		vfail(t, key+":short", "%s at %d of %d returns only %d bytes, %v", hist, pos, size, got, err)
		return false
	}
	if err != nil && (err != io.EOF || pos+int64(got) < size) {
		vfail(t, key+":error", "%s at %d of %d returns %d, %v", hist, pos, size, got, err)
		return false
	}
	return true
}

func TestVerif_C17_Handles(t *testing.T) {
	r := vrand()
	rounds := 400
	if vthorough() {
		rounds = 12000
	}
	if dir, err := ioutil.TempDir("", "verif"); err == nil {
		diskRoot = dir
		defer os.RemoveAll(dir)
	}
	cases := 0
	for k := 0; k < rounds; k++ {
		hs, err := vhandles(rand.New(rand.NewSource(r.Int63())))
		if err != nil {
			vfail(t, "c17:open", "%v", err)
			continue
		}
		for _, v := range hs {
			v, s := v, r.Int63()
			cases++
			vwithin(t, "c17:op", fmt.Sprintf("%s of %d bytes", v.kind, len(v.want)), 20*time.Second, func() {
				exercise(t, rand.New(rand.NewSource(s)), v, 12)
			})
		}
	}
	vcases("C17.histories", cases)
}

// Closed handles give no data.
func TestVerif_C17_Closed(t *testing.T) {
	r := vrand()
	for k := 0; k < 50; k++ {
		o, _, err := ramObject(r, 5+r.Intn(20), -1)
		if k%2 == 1 {
			o, _, err = dataObject(r, 5+r.Intn(20))
		}
		if err != nil {
			vfail(t, "c17:open", "%v", err)
			continue
		}
		o.Close()
		if n, err := o.Read(make([]byte, 3)); n != 0 || err == nil {
			vfail(t, "c17:closed", "reading %s after closing it returns %d, %v", o.URL(), n, err)
		}
		if n, err := o.ReadAt(make([]byte, 3), 1); n != 0 || err == nil {
			vfail(t, "c17:closed", "reading %s at 1 after closing it returns %d, %v", o.URL(), n, err)
		}
	}
	vcases("C17.closed", 50)
}

// Large zero objects and slices of them.
func TestVerif_C17_Large(t *testing.T) {
	r := vrand()
	n := 3000
	if vthorough() {
		n = 100000
	}
	for k := 0; k < n; k++ {
		size := r.Int63n(1 << uint(1+r.Intn(60)))
		var o storage.AnonymousObject
		oo, err := storage.Open(fmt.Sprintf("zero:%d", size))
		if err != nil {
			vfail(t, "c17:open", "%v", err)
			continue
		}
		o = oo
		in := fmt.Sprintf("zeros of %d bytes", size)
		if k%2 == 1 {
			lo := r.Int63n(size + 1)
			nn := r.Int63n(size - lo + 1)
			o = storage.Slice(o, lo, nn)
			size = nn
			in = fmt.Sprintf("slice of %s at %d of %d bytes", in, lo, nn)
		}
		if o.Size() != size {
			vfail(t, "c17:size", "%s has size %d", in, o.Size())
		}
		back := r.Int63n(20)
		pos, err := o.Seek(-back, io.SeekEnd)
		if back > size {
			continue
		}
		if err != nil || pos != size-back {
			vfail(t, "c17:seek", "%s: Seek(-%d, end) returns %d, %v", in, back, pos, err)
			continue
		}
		buf := bytes.Repeat([]byte{9}, r.Intn(30))
		got, err := o.Read(buf)
		judge(t, "c17:read", in, make([]byte, back), buf, 0, got, err, false)
		for i := range buf {
			buf[i] = 7
		}
		got, err = o.ReadAt(buf, size-back)
		judge(t, "c17:readat", in, make([]byte, back), buf, 0, got, err, true)
	}
	vcases("C17.large", n)
}

type vtrickle struct {
	r    *rand.Rand
	left int
	sum  int64
}

func (v *vtrickle) Read(p []byte) (int, error) {
	n := v.r.Intn(len(p) + 1)
	if n > v.left {
		n = v.left
	}
	v.left -= n
	v.sum += int64(n)
	if v.left == 0 {
		return n, io.EOF
	}
	if v.r.Intn(9) == 0 {
		return n, errInjected
	}
	return n, nil
}

func (v *vtrickle) Write(p []byte) (int, error) {
	n := v.r.Intn(len(p) + 1)
	v.sum += int64(n)
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

// The counters of plain readers and writers, also with errors and short counts.
func TestVerif_C17_Counters(t *testing.T) {
	r := vrand()
	n := 2000
	for k := 0; k < n; k++ {
		src := &vtrickle{r: r, left: r.Intn(200)}
		total := int64(r.Intn(100))
		start := total
		var rd io.Reader
		var wr io.Writer
		var own func() int64
		switch k % 4 {
		case 0:
			c := countio.NewReader(src)
			rd, own = c, c.BytesRead
		case 1:
			c := countio.NewReaderWithAtomicCounter(src, &total)
			rd, own = c, c.BytesRead
		case 2:
			c := countio.NewWriter(src)
			wr, own = c, c.BytesWritten
		case 3:
			c := countio.NewWriterWithAtomicCounter(src, &total)
			wr, own = c, c.BytesWritten
		}
		sum := int64(0)
		for i := 0; i < 20; i++ {
			before := src.sum
			var got int
			if rd != nil {
				got, _ = rd.Read(make([]byte, r.Intn(30)))
			} else {
				got, _ = wr.Write(make([]byte, r.Intn(30)))
			}
			if int64(got) != src.sum-before {
				vfail(t, "c17:counter", "call %d of a counting stream (kind %d) returns %d, %d bytes moved", i, k%4, got, src.sum-before)
			}
			sum += int64(got)
			if own() != sum || k%2 == 1 && total-start != sum {
				vfail(t, "c17:counter", "after %d calls a counting stream (kind %d) has counted %d, shared %d; %d bytes moved", i+1, k%4, own(), total-start, sum)
				break
			}
		}
	}
	vcases("C17.counters", n)
}
