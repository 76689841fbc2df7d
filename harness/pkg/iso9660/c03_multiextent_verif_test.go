package iso9660_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func TestVerif_C03_Parts(t *testing.T) {
	r := vrand()
	sizes := []uint64{0, 1, 2047, 2048, 2049, iso9660.MaxPartSize - 1, iso9660.MaxPartSize, iso9660.MaxPartSize + 1, 2*iso9660.MaxPartSize - 1, 2 * iso9660.MaxPartSize, 2*iso9660.MaxPartSize + 1, 1 << 32, 1<<32 - 1, 1<<33 + 7, 1 << 42}
	n := 2000
	if vthorough() {
		n = 20000
	}
	for len(sizes) < n {
		sizes = append(sizes, uint64(r.Int63n(1<<uint(1+r.Intn(40)))))
	}
	for i, size := range sizes {
		start := uint32(20)
		if i%3 == 1 {
			start = uint32(r.Intn(1 << 30))
		}
		if i%50 == 7 {
			start = ^uint32(0) - uint32(r.Intn(1<<22))
		}
		in := fmt.Sprintf("start %d size %d", start, size)
		var parts []iso9660.InodePart
		fits := uint64(start)+size/2048+1 < 1<<32
		if vpanics(func() { parts = iso9660.InodeParts(iso9660.LogicalBlockAddress(start), size) }) {
			if fits {
				vfail(t, "c03:panic", "%s refused", in)
			}
			continue
		}
		checkParts(t, parts, uint64(start), size, in)
	}
	vcases("C03.parts", len(sizes))
}

func checkParts(t *testing.T, parts []iso9660.InodePart, next, size uint64, in string) {
	if len(parts) == 0 {
		vfail(t, "c03:none", "%s: no extent", in)
	}
	sum := uint64(0)
	for k, p := range parts {
		if uint64(p.Start()) != next {
			vfail(t, "c03:contiguous", "%s: extent %d starts at %d, not %d", in, k, p.Start(), next)
			return
		}
		if k < len(parts)-1 && (p.Size()%2048 != 0 || p.Size() == 0) {
			vfail(t, "c03:gap", "%s: extent %d of %d bytes leaves a gap", in, k, p.Size())
			return
		}
		if k > 0 && p.Size() == 0 {
			vfail(t, "c03:empty", "%s: extent %d is empty", in, k)
			return
		}
		sum += uint64(p.Size())
		next += uint64(p.Size()) / 2048
	}
	if sum != size {
		vfail(t, "c03:sum", "%s: extents add up to %d", in, sum)
	}
}

func TestVerif_C03_ReadBack(t *testing.T) {
	r := vrand()
	n := 300
	if vthorough() {
		n = 600
	}
	for k := 0; k < n; k++ {
		v, root, bad := vtree(rand.New(rand.NewSource(r.Int63())), k%2 == 0, true)
		if bad != "" {
			vfail(t, "c03:add", "%s", bad)
			continue
		}
		if k%4 == 0 {
			for i, s := range []int64{iso9660.MaxPartSize, iso9660.MaxPartSize + 1, 2 * iso9660.MaxPartSize, 3*iso9660.MaxPartSize + 5, iso9660.MaxPartSize - 1} {
				o := &vobj{size: s, url: "v:b"}
				p := fmt.Sprintf("BIG%d", i)
				if k%8 == 0 {
					p += string(bytes.Repeat([]byte("l"), 180+i*20))
				}
				if root.add(p, &vnode{kind: 'f', obj: o}) {
					if err := v.AddFile(p, o); err != nil {
						vfail(t, "c03:add", "%v", err)
					}
				}
			}
		}
		in := vdescribe(root)
		var buf bytes.Buffer
		if !vguard(t, "c03", in, func() {
			if _, err := v.WriteMetadataTo(&buf); err != nil {
				vfail(t, "c03:write", "%v; tree %s", err, in)
			}
		}) {
			continue
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c03:pvd", "%v", err)
			continue
		}
		tree, rs, err := m.readTree(p)
		if err != nil {
			vfail(t, "c03:read", "%v; tree %s", err, in)
			continue
		}
		checkRanges(t, "c03", rs, int64(p.space), in)
		var cmp func(d *vfound, n *vnode)
		cmp = func(d *vfound, n *vnode) {
			it := iso9660.NewReadDirIterator(m, iso9660.LogicalBlockAddress(d.start), d.size, 0)
			listed := map[string]*iso9660.FileInfo{}
			for it.Next() {
				fi, _ := it.FileInfoAndLen()
				if listed[fi.Name()] != nil {
					vfail(t, "c03:twice", "%.60q listed twice; tree %s", fi.Name(), in)
				}
				listed[fi.Name()] = fi
			}
			if it.Err() != nil {
				vfail(t, "c03:list", "%v; tree %s", it.Err(), in)
			}
			for _, f := range d.dir {
				x := n.kids[f.name]
				if x == nil {
					vfail(t, "c03:unknown", "found %.60q; tree %s", f.name, in)
					continue
				}
				if f.kind == 'd' {
					cmp(f, x)
					continue
				}
				if f.kind != 'f' {
					continue
				}
				if f.size != x.obj.size {
					vfail(t, "c03:size", "extents of %.60q add up to %d, the file has %d; tree %s", f.name, f.size, x.obj.size, in)
				}
				next := int64(f.start)
				for i, rec := range f.recs {
					if int64(rec.start) != next {
						vfail(t, "c03:contiguous", "%.60q extent %d starts at %d, not %d", f.name, i, rec.start, next)
					}
					if i < len(f.recs)-1 && rec.length%2048 != 0 {
						vfail(t, "c03:gap", "%.60q extent %d has %d bytes", f.name, i, rec.length)
					}
					next += int64(rec.length) / 2048
				}
				fi := listed[f.name]
				if fi == nil || fi.Size() != x.obj.size || uint32(fi.Extent()) != f.start {
					vfail(t, "c03:listed", "%.60q of %d bytes at %d is listed as %+v; tree %s", f.name, x.obj.size, f.start, fi, in)
				}
			}
		}
		cmp(tree, root)
	}
	vcases("C03.readback", n)
}
