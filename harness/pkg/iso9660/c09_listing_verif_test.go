package iso9660_test

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func TestVerif_C09_Records(t *testing.T) {
	r := vrand()
	n := 800
	if vthorough() {
		n = 8000
	}
	for k := 0; k < n; k++ {
		var d iso9660.Directory
		m := r.Intn(60)
		var lens []int
		for i := 0; i < m; i++ {
			rec, _, _ := vrecord(r, 34+r.Intn(222))
			rec.Identifier = fmt.Sprintf("%d", i)
			if rec.Len() > 255 {
				rec.SystemUse = nil
			}
			if r.Intn(3) == 0 {
				// lengths that leave little or no room in a sector
				rec.SystemUse = nil
				e := ventN(r, 5+r.Intn(200), i)
				rec.SystemUse = append(rec.SystemUse, e)
			}
			lens = append(lens, rec.Len())
			d.Records = append(d.Records, rec)
		}
		in := fmt.Sprintf("records of %v bytes", lens)
		var buf bytes.Buffer
		cnt, err := d.WriteTo(&buf)
		if err != nil || cnt != int64(buf.Len()) {
			vfail(t, "c09:write", "%s: wrote %d, reported %d, err %v", in, buf.Len(), cnt, err)
			continue
		}
		size := d.Size()
		if size%2048 != 0 || size != vbytes(int64(buf.Len()))*2048 {
			vfail(t, "c09:size", "%s: %d bytes, size %d", in, buf.Len(), size)
			continue
		}
		start := uint32(1 + r.Intn(40))
		if k%5 == 0 {
			start = 1<<21 + uint32(r.Intn(1000)) // beyond 4 GiB
		}
		img := voff{vimg{buf.Bytes()}, int64(start) * 2048, size}
		recs, err := vimg{buf.Bytes()}.parseDirRaw(size)
		if err != nil || len(recs) != m {
			vfail(t, "c09:layout", "%s: %d records found, %v", in, len(recs), err)
			continue
		}
		// the whole listing
		offs := []int64{0}
		off := int64(0)
		ok := vwithin(t, "c09", in, 20e9, func() {
			it := iso9660.NewDirectoryRecordIterator(img, iso9660.LogicalBlockAddress(start), size, 0)
			i := 0
			for it.Next() {
				rec, l := it.RecordAndLen()
				if i >= m || rec.Identifier != d.Records[i].Identifier || sameRecord(&d.Records[i], rec) != "" {
					vfail(t, "c09:record", "%s: record %d is %+v", in, i, rec)
					return
				}
				off += l
				offs = append(offs, off)
				i++
			}
			if it.Err() != nil || i != m {
				vfail(t, "c09:record", "%s: %d of %d records, err %v", in, i, m, it.Err())
			}
		})
		if !ok || len(offs) != m+1 {
			continue
		}
		var dd iso9660.Directory
		full := make([]byte, size)
		copy(full, buf.Bytes())
		if err := iso9660.DecodeDirectory(bytes.NewReader(full), &dd); err != nil || len(dd.Records) != m {
			vfail(t, "c09:decode", "%s: decoding gives %d of %d records, err %v", in, len(dd.Records), m, err)
		} else {
			for i := range dd.Records {
				if sameRecord(&d.Records[i], &dd.Records[i]) != "" {
					vfail(t, "c09:decode", "%s: record %d is decoded as %+v", in, i, dd.Records[i])
					break
				}
			}
		}
		for i, off := range offs {
			if i%3 != 0 && i != m {
				continue
			}
			it := iso9660.NewDirectoryRecordIterator(img, iso9660.LogicalBlockAddress(start), size, off)
			j := i
			for it.Next() {
				rec, _ := it.RecordAndLen()
				if j >= m || rec.Identifier != d.Records[j].Identifier {
					vfail(t, "c09:resume", "%s: resuming at %d gives %q as record %d", in, off, rec.Identifier, j)
					break
				}
				j++
			}
			if it.Err() != nil || j != m {
				vfail(t, "c09:resume", "%s: resuming at %d stops at record %d of %d, err %v", in, off, j, m, it.Err())
			}
		}
		if img.bad() {
			vfail(t, "c09:beyond", "%s: read outside the directory", in)
		}
	}
	vcases("C09.directories", n)
}

// voff serves one directory at an offset and marks reads outside it.
type voff struct {
	vimg
	at, size int64
}

var voutside bool

func (o voff) bad() bool { b := voutside; voutside = false; return b }

func (o voff) ReadAt(p []byte, off int64) (int, error) {
	if off < o.at || off+int64(len(p)) > o.at+o.size {
		voutside = true
		return 0, io.EOF
	}
	return o.vimg.ReadAt(p, off-o.at)
}

// parseDirRaw checks the layout of a directory without following continuations.
func (m vimg) parseDirRaw(size int64) (recs []*vrec, err error) {
	pos := 0
	b := m.sector(0, size)
	for pos < len(b) {
		n := int(b[pos])
		if n == 0 {
			pos = (pos/2048 + 1) * 2048
			continue
		}
		if pos/2048 != (pos+n-1)/2048 {
			return recs, fmt.Errorf("record at %d of %d bytes crosses a sector", pos, n)
		}
		r, err := parseRec(b[pos : pos+n])
		if err != nil {
			return recs, err
		}
		recs = append(recs, r)
		pos += n
	}
	return
}

func TestVerif_C09_Entries(t *testing.T) {
	r := vrand()
	n := 150
	if vthorough() {
		n = 800
	}
	lists := 0
	for k := 0; k < n; k++ {
		v, root, bad := vtree(rand.New(rand.NewSource(r.Int63())), k%2 == 0, k%3 == 0)
		if bad != "" {
			vfail(t, "c09:add", "%s", bad)
			continue
		}
		if k%3 == 0 {
			for i := 0; i < 4; i++ {
				name := fmt.Sprintf("BIG%d", i) + strings.Repeat("b", r.Intn(200))
				o := &vobj{size: iso9660.MaxPartSize*int64(1+r.Intn(20)) + 1, url: "v:n"}
				if root.add(name, &vnode{kind: 'f', obj: o}) {
					if err := v.AddFile(name, o); err != nil {
						vfail(t, "c09:add", "%v", err)
					}
				}
			}
		}
		in := vdescribe(root)
		var buf bytes.Buffer
		if _, err := v.WriteMetadataTo(&buf); err != nil {
			vfail(t, "c09:write", "%v; tree %s", err, in)
			continue
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c09:pvd", "%v", err)
			continue
		}
		tree, _, err := m.readTree(p)
		if err != nil {
			vfail(t, "c09:read", "%v; tree %s", err, in)
			continue
		}
		var walk func(d *vfound)
		walk = func(d *vfound) {
			lists++
			names := []string{".", ".."}
			for _, f := range d.dir {
				names = append(names, f.name)
				if f.kind == 'd' {
					walk(f)
				}
			}
			list := func(off int64) (got []string, offs []int64, err error) {
				it := iso9660.NewReadDirIterator(m, iso9660.LogicalBlockAddress(d.start), d.size, off)
				for it.Next() {
					fi, l := it.FileInfoAndLen()
					got = append(got, fi.Name())
					off += l
					offs = append(offs, off)
				}
				return got, offs, it.Err()
			}
			got, offs, err := list(0)
			if err != nil || strings.Join(got, "/") != strings.Join(names, "/") {
				vfail(t, "c09:list", "directory %.40q lists %d of %d entries (%v) or in another order; tree %s", d.name, len(got), len(names), err, in)
				return
			}
			for i, off := range offs {
				if off > d.size {
					vfail(t, "c09:offset", "entry %d ends at %d in a directory of %d; tree %s", i, off, d.size, in)
				}
				if len(offs) > 40 && i%7 != 0 {
					continue
				}
				rest, _, err := list(off)
				if err != nil || strings.Join(rest, "/") != strings.Join(names[i+1:], "/") {
					vfail(t, "c09:resume", "resuming directory %.40q at %d after %d entries gives %d of %d entries, %v; tree %s", d.name, off, i+1, len(rest), len(names)-i-1, err, in)
					return
				}
			}
		}
		walk(tree)
	}
	vcases("C09.listings", lists)
}
