package iso9660_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
)

var errInjected = errors.New("injected failure")

// vwriter accepts limit bytes, then fails; partial says whether the failing call takes what still fits.
type vwriter struct {
	limit   int64
	partial bool
	n       int64
	b       []byte
	after   int // calls after the failure
	failed  bool
	once    int // instead: fail only this call
	calls   int
}

func (w *vwriter) Write(p []byte) (int, error) {
	w.calls++
	if w.once > 0 {
		if w.calls == w.once {
			w.failed = true
			k := 0
			if w.partial {
				k = len(p) / 2
			}
			w.n += int64(k)
			return k, errInjected
		}
		if w.failed {
			w.after++
		}
		w.n += int64(len(p))
		return len(p), nil
	}
	if w.failed {
		w.after++
		return 0, errInjected
	}
	if w.n+int64(len(p)) > w.limit {
		w.failed = true
		if w.partial {
			k := int(w.limit - w.n)
			w.n += int64(k)
			w.b = append(w.b, p[:k]...)
			return k, errInjected
		}
		return 0, errInjected
	}
	w.n += int64(len(p))
	w.b = append(w.b, p...)
	return len(p), nil
}

// checkWriter fails every write position in turn.
func checkWriter(t *testing.T, key, what string, exact bool, step int, f func(io.Writer) (int64, error)) int {
	var ok bytes.Buffer
	var n int64
	var err error
	if !vguard(t, key, what, func() { n, err = f(&ok) }) {
		return 0
	}
	if err != nil || n != int64(ok.Len()) {
		vfail(t, key+":success", "%s: wrote %d bytes, reported %d, error %v", what, ok.Len(), n, err)
		return 0
	}
	cases := 0
	for lim := 0; lim < ok.Len(); lim += step {
		cases++
		w := &vwriter{limit: int64(lim), partial: lim%2 == 0}
		in := fmt.Sprintf("%s with the writer failing after %d bytes (partial %v)", what, lim, w.partial)
		if !vguard(t, key, in, func() { n, err = f(w) }) {
			return cases
		}
		if err == nil {
			vfail(t, key+":lost", "%s succeeds", in)
			return cases
		}
		if exact && n != w.n || n > w.n || n < 0 {
			vfail(t, key+":count", "%s reports %d bytes, %d were written", in, n, w.n)
			return cases
		}
		if !bytes.HasPrefix(ok.Bytes(), w.b) {
			vfail(t, key+":other", "%s writes other bytes before the failure", in)
			return cases
		}
	}
	// one failed call between successful ones
	count := &vwriter{limit: 1 << 60}
	f(count)
	every := 1 + count.calls/400
	if vthorough() {
		every = 1 + count.calls/4000
	}
	for c := 1; c <= count.calls; c += every {
		cases++
		w := &vwriter{once: c, partial: c%2 == 0}
		in := fmt.Sprintf("%s with write call %d of %d failing once (partial %v)", what, c, count.calls, w.partial)
		if !vguard(t, key, in, func() { n, err = f(w) }) {
			return cases
		}
		if err == nil && w.failed {
			vfail(t, key+":lost", "%s succeeds", in)
			return cases
		}
		if exact && n != w.n || n > w.n || n < 0 {
			vfail(t, key+":count", "%s reports %d bytes, %d were written", in, n, w.n)
			return cases
		}
	}
	return cases
}

func TestVerif_C13_Writers(t *testing.T) {
	r := vrand()
	n := 0
	for k := 0; k < 300; k++ {
		v := ventry(r)
		if v.e == nil {
			continue
		}
		n += checkWriter(t, "c13:entry", v.desc, false, 1, v.e.WriteTo)
	}
	for k := 0; k < 100; k++ {
		rec, _, in := vrecord(r, 255)
		n += checkWriter(t, "c13:record", in, true, 1, rec.WriteTo)
	}
	for k := 0; k < 4; k++ {
		p := iso9660.PrimaryVolumeDescriptor{SystemIdentifier: vstr(r, aChars, 32), VolumeIdentifier: vstr(r, dChars, 32), RootModified: vtime(r, 1900, 2155)}
		n += checkWriter(t, "c13:descriptor", "descriptor", true, 1, p.WriteTo)
		var term iso9660.Terminator
		n += checkWriter(t, "c13:terminator", "terminator", true, 7, term.WriteTo)
		var d iso9660.Directory
		for i := 0; i < 30; i++ {
			rec, _, _ := vrecord(r, 255)
			d.Records = append(d.Records, rec)
		}
		n += checkWriter(t, "c13:directory", "directory of 30 records", true, 3, d.WriteTo)
		var pt iso9660.PathTable
		for i := 0; i < 20; i++ {
			pt.Records = append(pt.Records, iso9660.PathTableRecord{Identifier: vstr(r, dChars, 9), Location: iso9660.LogicalBlockAddress(v32(r))})
		}
		n += checkWriter(t, "c13:table", "path table of 20 records", true, 1, func(w io.Writer) (int64, error) {
			return iso9660.NewPathTableEncoder(binary.LittleEndian, w).Encode(&pt)
		})
		ca := iso9660.NewContinuationArea(20)
		for i := 0; i < 20; i++ {
			v := ventry(r)
			if v.e != nil {
				ca.Append([]susp.SystemUseEntry{v.e, v.e})
			}
		}
		n += checkWriter(t, "c13:area", "continuation area", true, 3, ca.WriteTo)
	}
	images := 6
	if vthorough() {
		images = 40
	}
	for k := 0; k < images; k++ {
		v, root, bad := walkTree13(rand.New(rand.NewSource(r.Int63())))
		if bad != "" {
			vfail(t, "c13:add", "%s", bad)
			continue
		}
		in := vdescribe(root)
		n += checkWriter(t, "c13:image", "image of "+in, true, 499, v.WriteTo)
		n += checkWriter(t, "c13:metadata", "metadata of "+in, true, 211, v.WriteMetadataTo)
	}
	vcases("C13.writes", n)
}

func walkTree13(r *rand.Rand) (*iso9660.Volume, *vnode, string) {
	v := iso9660.NewVolume()
	root := newDir()
	for i := 0; i < 8; i++ {
		p := fmt.Sprintf("d%d/f%d", i%3, i)
		if i%4 == 1 {
			p += string(bytes.Repeat([]byte("n"), 300))
		}
		o := &vobj{size: int64(r.Intn(7000)), seed: byte(i), url: "v:"}
		if i == 5 {
			o.size = 0
		}
		if i%3 == 2 {
			if err := v.AddSymlink(p, "../x"); err != nil {
				return nil, nil, err.Error()
			}
			root.add(p, &vnode{kind: 'l', target: "../x"})
			continue
		}
		if err := v.AddFile(p, o); err != nil {
			return nil, nil, err.Error()
		}
		root.add(p, &vnode{kind: 'f', obj: o})
	}
	return v, root, ""
}

func TestVerif_C13_Sources(t *testing.T) {
	// a source that fails, or ends early, fails the image
	r := vrand()
	n := 0
	for k := 0; k < 60; k++ {
		for _, short := range []bool{false, true} {
			v, root, bad := walkTree13(rand.New(rand.NewSource(r.Int63())))
			if bad != "" {
				continue
			}
			var objs []*vobj
			root.each("/", func(p string, x *vnode) {
				if x.kind == 'f' && x.obj.size > 0 {
					objs = append(objs, x.obj)
				}
			})
			o := objs[r.Intn(len(objs))]
			at := r.Int63n(o.size)
			if short {
				o.lie = at + 1
			} else {
				o.fail = at + 1
			}
			in := fmt.Sprintf("file of %d bytes whose content stops at %d (error %v)", o.size, at, !short)
			n++
			var buf bytes.Buffer
			var err error
			if !vguard(t, "c13", in, func() { _, err = v.WriteTo(&buf) }) {
				continue
			}
			if err == nil {
				vfail(t, "c13:source", "%s is written without error", in)
			}
		}
	}
	vcases("C13.sources", n)
}

// vreader fails after limit bytes, with errInjected or by ending.
type vreader struct {
	b     []byte
	limit int
	eof   bool
	one   bool
	pos   int
}

func (v *vreader) Read(p []byte) (int, error) {
	if len(p) == 0 {
		return 0, nil
	}
	if v.pos >= v.limit {
		if v.eof {
			return 0, io.EOF
		}
		return 0, errInjected
	}
	if v.one {
		p = p[:1]
	}
	n := copy(p, v.b[v.pos:v.limit])
	v.pos += n
	return n, nil
}

func checkReader(t *testing.T, key, what string, b []byte, min int, f func(io.Reader) error) int {
	n := 0
	for lim := 0; lim <= len(b); lim++ {
		for _, eof := range []bool{true, false} {
			n++
			in := fmt.Sprintf("decoding %s from a source that stops after %d of %d bytes (end of file %v)", what, lim, len(b), eof)
			var err error
			if !vguard(t, key, in, func() { err = f(&vreader{b: b, limit: lim, eof: eof, one: lim%2 == 1}) }) {
				return n
			}
			if lim == len(b) && eof && err != nil {
				vfail(t, key+":whole", "%s fails: %v", in, err)
				return n
			}
			if (lim < min || lim < len(b) && !eof) && err == nil {
				vfail(t, key+":lost", "%s succeeds", in)
				return n
			}
		}
	}
	return n
}

func TestVerif_C13_Readers(t *testing.T) {
	r := vrand()
	n := 0
	for k := 0; k < 300; k++ {
		v := ventry(r)
		if v.e == nil {
			continue
		}
		var buf bytes.Buffer
		v.e.WriteTo(&buf)
		n += checkReader(t, "c13:decode-entry", v.desc, buf.Bytes(), 0, func(rd io.Reader) error {
			es, err := iso9660.DecodeSystemUseEntries(rd)
			if err == nil && len(es) == 0 && rd.(*vreader).limit > 2 {
				return nil // flagged below when bytes were lost
			}
			if vr := rd.(*vreader); err == nil && vr.limit > 2 && vr.limit < len(vr.b) {
				vfail(t, "c13:decode-entry:truncated", "%s truncated to %d bytes decodes without error", v.desc, vr.limit)
			}
			return err
		})
	}
	for k := 0; k < 60; k++ {
		rec, _, in := vrecord(r, 255)
		rec.SystemUse = nil
		var buf bytes.Buffer
		rec.WriteTo(&buf)
		b := buf.Bytes()[1:]
		min := len(b)
		n += checkReader(t, "c13:decode-record", in, b, min, func(rd io.Reader) error {
			var out iso9660.DirectoryRecord
			return iso9660.DecodeDirectoryRecord(rd, &out)
		})
	}
	p := iso9660.PrimaryVolumeDescriptor{SystemIdentifier: "S", RootModified: vtime(r, 1900, 2155), RootLength: 2048}
	var buf bytes.Buffer
	p.WriteTo(&buf)
	n += checkReader(t, "c13:decode-descriptor", "descriptor", buf.Bytes(), 2048, func(rd io.Reader) error {
		var q iso9660.PrimaryVolumeDescriptor
		return iso9660.DecodePrimaryVolumeDescriptor(rd, &q)
	})
	vcases("C13.reads", n)
}

// vflaky fails one call of ReadAt.
type vflaky struct {
	vimg
	calls, fail int
	hit         bool
	size        int64
}

func (f *vflaky) ReadAt(p []byte, off int64) (int, error) {
	f.calls++
	if f.calls == f.fail {
		f.hit = true
		n := 0
		if f.fail%2 == 0 && len(p) > 1 {
			n = len(p) / 2
			f.vimg.ReadAt(p[:n], off)
		}
		return n, errInjected
	}
	return f.vimg.ReadAt(p, off)
}

func TestVerif_C13_Walker(t *testing.T) {
	r := vrand()
	v, root, bad := walkTree13(r)
	if bad != "" {
		vfail(t, "c13:add", "%s", bad)
		return
	}
	var buf bytes.Buffer
	v.WriteTo(&buf)
	ops := map[string]func(w *iso9660.Walker) error{
		"Lstat(/d0/f6)": func(w *iso9660.Walker) error { _, err := w.Lstat("/d0/f6"); return err },
		"Stat(/d1/f1)":  func(w *iso9660.Walker) error { _, err := w.Lstat("/d1/f7"); return err },
		"ReadDir(/)": func(w *iso9660.Walker) error {
			es, err := w.ReadDir("/")
			if err == nil && len(es) != 5 {
				return nil
			}
			return err
		},
		"ReadDir(/d1)": func(w *iso9660.Walker) error { _, err := w.ReadDir("/d1"); return err },
		"Open(/d1).ReadDir": func(w *iso9660.Walker) error {
			f, err := w.Open("/d1")
			if err != nil {
				return err
			}
			_, err = f.ReadDir()
			return err
		},
		"Walk(/)": func(w *iso9660.Walker) error {
			return w.Walk("/", func(p string, fi os.FileInfo, err error) error { return err })
		},
	}
	n := 0
	for name, op := range ops {
		for fail := 1; ; fail++ {
			n++
			f := &vflaky{vimg: vimg{buf.Bytes()}, fail: fail}
			w := iso9660.NewWalker(f)
			in := fmt.Sprintf("%s with read %d failing; tree %s", name, fail, vdescribe(root))
			var err error
			if !vwithin(t, "c13:walker", in, 20e9, func() { err = op(w) }) {
				break
			}
			if !f.hit {
				if err != nil {
					vfail(t, "c13:walker", "%s fails without injected failure: %v", name, err)
				}
				break
			}
			if err == nil {
				vfail(t, "c13:walker:lost", "%s succeeds", in)
				break
			}
			// the failure is not remembered
			if err := op(w); err != nil {
				vfail(t, "c13:walker:sticky", "%s: the next attempt fails too: %v", in, err)
				break
			}
		}
	}
	vcases("C13.walker", n)
}
