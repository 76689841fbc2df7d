package iso9660_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func TestVerif_C02_Image(t *testing.T) {
	r := vrand()
	n := 500
	if vthorough() {
		n = 1500
	}
	for k := 0; k < n; k++ {
		big := k%2 == 1
		v, root, bad := vtree(rand.New(rand.NewSource(r.Int63())), k%3 == 0, big)
		if bad != "" {
			vfail(t, "c02:add", "%s", bad)
			continue
		}
		in := vdescribe(root)
		var buf bytes.Buffer
		var err error
		if !vguard(t, "c02", "writing "+in, func() {
			if big {
				_, err = v.WriteMetadataTo(&buf)
			} else {
				_, err = v.WriteTo(&buf)
			}
		}) {
			continue
		}
		if err != nil {
			vfail(t, "c02:write", "%v; tree: %s", err, in)
			continue
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c02:pvd", "%v; tree: %s", err, in)
			continue
		}
		tree, rs, err := m.readTree(p)
		if err != nil {
			vfail(t, "c02:read", "%v; tree: %s", err, in)
			continue
		}
		checkRanges(t, "c02", rs, int64(p.space), in)
		if !big {
			if int64(buf.Len()) > int64(p.space)*2048 {
				vfail(t, "c02:size", "image of %d bytes in a volume of %d sectors; tree: %s", buf.Len(), p.space, in)
			}
			var cmp func(d *vfound, n *vnode)
			cmp = func(d *vfound, n *vnode) {
				for _, f := range d.dir {
					x := n.kids[f.name]
					if x == nil {
						continue
					}
					if f.kind == 'd' && x.kind == 'd' {
						cmp(f, x)
					}
					if f.kind == 'f' && x.kind == 'f' {
						got := m.sector(f.start, f.size)
						for i := range got {
							if got[i] != x.obj.at(int64(i)) {
								vfail(t, "c02:content", "file %.60q byte %d is not at its recorded extent %d; tree: %s", f.name, i, f.start, in)
								break
							}
						}
					}
				}
			}
			cmp(tree, root)
		}
	}
	vcases("C02.images", n)
}

func TestVerif_C02_Refuse(t *testing.T) {
	// total size just below, at and above the addressable range
	cases := 0
	for _, sizes := range [][]int64{
		{1 << 43}, {1<<43 - 1}, {1 << 42, 1 << 42}, {1<<42 + 5, 1 << 41, 1 << 41}, {1<<43 + 1}, {1 << 44}, {1<<43 - 22*2048}, {1<<43 - 40*2048, 100 * 2048}, {1<<43 - 100*2048, 1},
	} {
		cases++
		v := iso9660.NewVolume()
		total := int64(0)
		for i, s := range sizes {
			if err := v.AddFile(fmt.Sprintf("f%d", i), &vobj{size: s, url: "v:x"}); err != nil {
				vfail(t, "c02:add", "%v", err)
			}
			total += vbytes(s)
		}
		var buf bytes.Buffer
		var err error
		if vpanics(func() { _, err = v.WriteMetadataTo(&buf) }) || err != nil {
			continue // refused
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c02:pvd", "%v", err)
			continue
		}
		_, rs, err := m.readTree(p)
		if err != nil {
			vfail(t, "c02:read", "%v", err)
			continue
		}
		checkRanges(t, "c02:limit", rs, int64(p.space), fmt.Sprintf("files of %v bytes", sizes))
	}
	// the allocator itself
	r := vrand()
	for k := 0; k < 200; k++ {
		cases++
		a := iso9660.NewSectorAllocator()
		next := int64(0)
		var hist []uint32
		for i := 0; i < 3000; i++ {
			var n uint32
			switch r.Intn(4) {
			case 0:
				n = r.Uint32()
			case 1:
				n = uint32(r.Intn(3)) * 2048
			case 2:
				n = ^uint32(0) - uint32(r.Intn(5000))
			default:
				n = uint32(r.Intn(6000))
			}
			hist = append(hist, n)
			var got iso9660.LogicalBlockAddress
			if vpanics(func() { got = a.Alloc(n) }) {
				if next+vbytes(int64(n)) < 1<<32 {
					vfail(t, "c02:alloc", "Alloc(%d) after %d sectors refused", n, next)
				}
				break
			}
			if int64(got) != next {
				vfail(t, "c02:alloc", "Alloc(%d) as request %d starts at %d, the previous ended at %d", n, i, got, next)
				break
			}
			next += vbytes(int64(n))
			if next >= 1<<32 {
				vfail(t, "c02:alloc-wrap", "Alloc(%d) ends at sector %d beyond the addressable range and was not refused", n, next)
				break
			}
			if int64(a.Allocated()) != next {
				vfail(t, "c02:alloc", "Allocated()=%d after %d sectors", a.Allocated(), next)
				break
			}
		}
	}
	vcases("C02.limits", cases)
}
