package storage_test

import (
	"bytes"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage"
)

func joinParts(r *rand.Rand, ps []*vpart, concurrent bool) storage.AnonymousObject {
	objs := make([]storage.AnonymousObject, len(ps))
	for i, p := range ps {
		objs[i] = p
	}
	if concurrent {
		return storage.ConcurrentConcat(objs...)
	}
	return storage.Concat(objs...)
}

// checkRange reads one range of a concatenation and compares it.
func checkRange(t *testing.T, key, in string, c storage.AnonymousObject, ps []*vpart, size, off int64, n int) bool {
	buf := bytes.Repeat([]byte{0xA5}, n)
	var got int
	var err error
	what := fmt.Sprintf("%s: read of %d bytes at %d", in, n, off)
	if !vguard(t, key, what, func() { got, err = c.ReadAt(buf, off) }) {
		return false
	}
	if n == 0 {
		if got != 0 || err != nil && err != io.EOF {
			vfail(t, key+":empty", "%s returns %d, %v", what, got, err)
			return false
		}
		return true
	}
	if off >= size {
		if got != 0 || err != io.EOF {
			vfail(t, key+":end", "%s of a %d byte object returns %d, %v instead of end of file", what, size, got, err)
			return false
		}
		return true
	}
	want := bytesOf(ps, off, int64(n))
	if got != len(want) || err != nil && (err != io.EOF || off+int64(got) < size) {
		vfail(t, key+":short", "%s returns %d, %v; %d bytes are there", what, got, err, len(want))
		return false
	}
	if !bytes.Equal(buf[:got], want) {
		vfail(t, key+":bytes", "%s returns %x instead of %x", what, buf[:got], want)
		return false
	}
	return true
}

func TestVerif_C14_Ranges(t *testing.T) {
	r := vrand()
	rounds, cases := 250, 0
	if vthorough() {
		rounds = 5000
	}
	for k := 0; k < rounds; k++ {
		ps := vparts(r, 8, []int64{1, 3, 6}[k%3])
		size := int64(0)
		for _, p := range ps {
			size += p.size
		}
		c := joinParts(r, ps, k%2 == 1)
		in := fmt.Sprintf("%s (concurrent %v)", sizesOf(ps), k%2 == 1)
		if c.Size() != size {
			vfail(t, "c14:size", "%s has size %d, want %d", in, c.Size(), size)
			continue
		}
	ranges:
		for off := int64(0); off <= size+2; off++ {
			for n := 0; int64(n) <= size-off+3; n++ {
				cases++
				if !checkRange(t, "c14:range", in, c, ps, size, off, n) {
					break ranges
				}
			}
		}
	}
	vcases("C14.ranges", cases)
}

func TestVerif_C14_Large(t *testing.T) {
	r := vrand()
	rounds := 400
	if vthorough() {
		rounds = 20000
	}
	cases := 0
	for k := 0; k < rounds; k++ {
		var ps []*vpart
		size := int64(0)
		var edges []int64
		for i := 2 + r.Intn(60); i > 0; i-- {
			p := &vpart{id: r.Int63(), size: r.Int63n(1 << uint(1+r.Intn(40)))}
			ps = append(ps, p)
			size += p.size
			edges = append(edges, size)
		}
		c := joinParts(r, ps, k%2 == 0)
		in := fmt.Sprintf("%d parts up to %d bytes in total", len(ps), size)
		if c.Size() != size {
			vfail(t, "c14:size", "%s has size %d", in, c.Size())
		}
		for q := 0; q < 20; q++ {
			off := edges[r.Intn(len(edges))] - r.Int63n(70)
			if off < 0 {
				off = 0
			}
			cases++
			// the content is only rendered around the range
			base, lo := int64(0), 0
			for lo < len(ps)-1 && base+ps[lo].size <= off {
				base += ps[lo].size
				lo++
			}
			n := r.Intn(200)
			buf := make([]byte, n)
			want := bytesOfFrom(ps[lo:], off-base, int64(n))
			var got int
			var err error
			what := fmt.Sprintf("%s: read of %d bytes at %d", in, n, off)
			if !vguard(t, "c14:large", what, func() { got, err = c.ReadAt(buf, off) }) {
				break
			}
			if got != len(want) || !bytes.Equal(buf[:got], want) || err != nil && err != io.EOF {
				vfail(t, "c14:large", "%s returns %d bytes, %v; want %d bytes", what, got, err, len(want))
				break
			}
		}
	}
	vcases("C14.large", cases)
}

func bytesOfFrom(ps []*vpart, off, n int64) []byte {
	var out []byte
	for _, p := range ps {
		for off < p.size && int64(len(out)) < n {
			out = append(out, p.at(off))
			off++
		}
		off -= p.size
		if int64(len(out)) >= n {
			break
		}
	}
	return out
}

func TestVerif_C14_Sequential(t *testing.T) {
	r := vrand()
	rounds := 600
	if vthorough() {
		rounds = 20000
	}
	for k := 0; k < rounds; k++ {
		ps := vparts(r, 8, 9)
		size := int64(0)
		for _, p := range ps {
			size += p.size
		}
		c := joinParts(r, ps, k%2 == 1)
		in := sizesOf(ps)
		want := bytesOf(ps, 0, size)
		if k%3 == 0 {
			var got []byte
			var err error
			if !vwithin(t, "c14:all", in, 20*time.Second, func() { got, err = ioutil.ReadAll(c) }) {
				continue
			}
			if err != nil || !bytes.Equal(got, want) {
				vfail(t, "c14:all", "%s: reading to the end gives %d of %d bytes, %v", in, len(got), size, err)
			}
			continue
		}
		pos := int64(0)
		hist := ""
		for q := 0; q < 12; q++ {
			if r.Intn(2) == 0 {
				o, w := r.Int63n(2*size+6)-size-2, r.Intn(3)
				pos += 0
				target := o
				if w == io.SeekCurrent {
					target += pos
				} else if w == io.SeekEnd {
					target += size
				}
				if target < 0 {
					target = 0
				}
				if target > size {
					target = size
				}
				hist += fmt.Sprintf(" Seek(%d,%d)", o, w)
				got, err := c.Seek(o, w)
				if len(ps) == 1 {
					// a single object is returned as it is
					pos = got
					continue
				}
				if err != nil || got != target {
					vfail(t, "c14:seek", "%s:%s returns %d, %v instead of %d", in, hist, got, err, target)
					break
				}
				pos = target
				continue
			}
			n := r.Intn(8)
			buf := make([]byte, n)
			hist += fmt.Sprintf(" Read(%d)", n)
			var got int
			var err error
			if !vguard(t, "c14:read", in+":"+hist, func() { got, err = c.Read(buf) }) {
				break
			}
			w := bytesOf(ps, pos, int64(n))
			if got != len(w) || !bytes.Equal(buf[:got], w) || err != nil && err != io.EOF {
				vfail(t, "c14:read", "%s:%s returns %x, %v instead of %x", in, hist, buf[:got], err, w)
				break
			}
			if n > 0 && pos >= size && err != io.EOF {
				vfail(t, "c14:eof", "%s:%s at the end returns %v", in, hist, err)
				break
			}
			pos += int64(got)
			if r.Intn(3) == 0 { // a positioned read in between does not matter
				c.ReadAt(make([]byte, 3), r.Int63n(size+1))
			}
		}
	}
	vcases("C14.sequential", rounds)
}

func TestVerif_C14_Failures(t *testing.T) {
	r := vrand()
	rounds := 3000
	if vthorough() {
		rounds = 60000
	}
	for k := 0; k < rounds; k++ {
		ps := vparts(r, 7, 6)
		for len(ps) < 2 {
			ps = append(ps, &vpart{id: r.Int63(), size: 1 + r.Int63n(6)})
		}
		bad := r.Intn(len(ps))
		if ps[bad].size == 0 {
			ps[bad].size = 3
		}
		mode := r.Intn(3)
		limit := int64(0)
		switch mode {
		case 0:
			ps[bad].fail = true
		case 1, 2:
			ps[bad].short = 1 + r.Int63n(ps[bad].size)
			ps[bad].quiet = mode == 2
			limit = ps[bad].short
		}
		size, at := int64(0), int64(0)
		for i, p := range ps {
			if i == bad {
				at = size
			}
			size += p.size
		}
		c := joinParts(r, ps, k%2 == 1)
		off := r.Int63n(size)
		n := 1 + r.Intn(int(size-off)+2)
		end := off + int64(n)
		if end > size {
			end = size
		}
		// the first byte that cannot be had
		lost := at + limit
		if lost >= at+ps[bad].size {
			lost = size // nothing is lost
		}
		if lost < off && off < at+ps[bad].size {
			lost = off
		} else if lost < off {
			lost = size
		}
		in := fmt.Sprintf("%s, part %d failing (mode %d, after %d bytes): read of %d at %d", sizesOf(ps), bad, mode, limit, n, off)
		buf := make([]byte, n)
		var got int
		var err error
		if !vguard(t, "c14:failure", in, func() { got, err = c.ReadAt(buf, off) }) {
			continue
		}
		good := bytesOf(ps, off, end-off)
		if got < 0 || got > len(good) || !bytes.Equal(buf[:got], good[:got]) {
			vfail(t, "c14:failure-bytes", "%s returns %x, %v", in, buf[:got], err)
			continue
		}
		if lost < end && err == nil {
			vfail(t, "c14:failure-lost", "%s succeeds with %d bytes", in, got)
		}
		if lost < end && off+int64(got) > lost {
			vfail(t, "c14:failure-count", "%s claims %d bytes, byte %d was not delivered", in, got, lost)
		}
		if mode == 0 && lost < end && err == io.EOF {
			vfail(t, "c14:failure-eof", "%s reports end of file", in)
		}
		if lost >= end && (int64(got) != end-off || err != nil && err != io.EOF) {
			vfail(t, "c14:failure-extra", "%s returns %d bytes, %v although the range is fine", in, got, err)
		}
	}
	vcases("C14.failures", rounds)
}

// A sequential reader that comes back after a failure goes on where it was.
func TestVerif_C14_Resume(t *testing.T) {
	r := vrand()
	rounds := 1500
	if vthorough() {
		rounds = 30000
	}
	for k := 0; k < rounds; k++ {
		ps := vparts(r, 7, 6)
		for len(ps) < 2 {
			ps = append(ps, &vpart{id: r.Int63(), size: 1 + r.Int63n(6)})
		}
		size := int64(0)
		for _, p := range ps {
			size += p.size
		}
		c := joinParts(r, ps, k%2 == 1)
		in := sizesOf(ps)
		want := bytesOf(ps, 0, size)
		var got []byte
		for q := 0; q < 10; q++ {
			bad := r.Intn(len(ps))
			switch r.Intn(3) {
			case 0:
				ps[bad].fail = true
			case 1:
				ps[bad].short = 1 + r.Int63n(6)
			}
			buf := make([]byte, 1+r.Intn(9))
			var n int
			var err error
			if !vguard(t, "c14:resume", in, func() { n, err = c.Read(buf) }) {
				return
			}
			if n < 0 || n > len(buf) {
				vfail(t, "c14:resume", "%s: a read of %d bytes returns %d", in, len(buf), n)
				return
			}
			got = append(got, buf[:n]...)
			in += fmt.Sprintf(" Read(%d)=%d,%v", len(buf), n, err)
			ps[bad].fail, ps[bad].short = false, 0
		}
		var rest []byte
		var err error
		if !vwithin(t, "c14:resume", in, 20*time.Second, func() { rest, err = ioutil.ReadAll(c) }) {
			continue
		}
		if got = append(got, rest...); err != nil || !bytes.Equal(got, want) {
			vfail(t, "c14:resume", "%s and then the rest gives %x, %v instead of %x", in, got, err, want)
		}
	}
	vcases("C14.resumed", rounds)
}
