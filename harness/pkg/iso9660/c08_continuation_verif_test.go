package iso9660_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
)

func raws(es []susp.SystemUseEntry) (out []string) {
	for _, e := range es {
		var b bytes.Buffer
		e.WriteTo(&b)
		out = append(out, b.String())
	}
	return
}

func disjoint(t *testing.T, key, in string, rs []vrange) {
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo })
	for i := 1; i < len(rs); i++ {
		if rs[i-1].hi > rs[i].lo {
			vfail(t, key, "%s [%d,%d) overlaps %s [%d,%d); %s", rs[i-1].what, rs[i-1].lo, rs[i-1].hi, rs[i].what, rs[i].lo, rs[i].hi, in)
			return
		}
	}
}

func TestVerif_C08_Area(t *testing.T) {
	r := vrand()
	n := 1500
	if vthorough() {
		n = 15000
	}
	for k := 0; k < n; k++ {
		start := uint32(r.Intn(1000))
		ca := iso9660.NewContinuationArea(iso9660.LogicalBlockAddress(start))
		var lists [][]susp.SystemUseEntry
		var ces []*susp.ContinuationAreaEntry
		var shape []string
		tag := 0
		ok := true
		for i := 1 + r.Intn(30); i > 0 && ok; i-- {
			var es []susp.SystemUseEntry
			m := r.Intn(6)
			if r.Intn(8) == 0 {
				m = 20 + r.Intn(40)
			}
			var lens []int
			for ; m > 0; m-- {
				l := 5 + r.Intn(251)
				switch r.Intn(4) {
				case 0:
					l = 255
				case 1:
					l = 5 + r.Intn(30)
				}
				tag++
				es = append(es, ventN(r, l, tag))
				lens = append(lens, l)
			}
			shape = append(shape, fmt.Sprint(lens))
			in := fmt.Sprintf("entry lengths %v", shape)
			var ce *susp.ContinuationAreaEntry
			arg := append([]susp.SystemUseEntry(nil), es...)
			if ok = vwithin(t, "c08", in, 20e9, func() { ce = ca.Append(arg) }); !ok {
				break
			}
			if (ce == nil) != (len(es) == 0) {
				vfail(t, "c08:pointer", "%s: pointer %v for %d entries", in, ce, len(es))
				ok = false
			}
			if ce != nil {
				lists = append(lists, es)
				ces = append(ces, ce)
			}
		}
		if !ok {
			continue
		}
		in := fmt.Sprintf("area at %d, entry lengths %v", start, shape)
		var buf bytes.Buffer
		cnt, err := ca.WriteTo(&buf)
		if err != nil || cnt != int64(buf.Len()) || buf.Len() != ca.Len() || buf.Len()%2048 != 0 {
			vfail(t, "c08:size", "%s: Len()=%d, wrote %d, reported %d, err %v", in, ca.Len(), buf.Len(), cnt, err)
			continue
		}
		m := vimg{append(make([]byte, int64(start)*2048), buf.Bytes()...)}
		var rs []vrange
		for i, ce := range ces {
			var b bytes.Buffer
			ce.WriteTo(&b)
			rec := &vrec{ident: fmt.Sprintf("#%d", i)}
			if err := m.followSU(b.Bytes(), rec); err != nil {
				vfail(t, "c08:follow", "list %d: %v; %s", i, err, in)
				break
			}
			want := raws(lists[i])
			var got []string
			for _, e := range rec.su {
				got = append(got, string(e.raw))
			}
			if strings.Join(got, "|") != strings.Join(want, "|") {
				vfail(t, "c08:entries", "list %d of %d entries is read back as %d entries in another order or with other content; %s", i, len(want), len(got), in)
				break
			}
			for _, c := range rec.ceRanges {
				if c.lo < int64(start)*2048 || c.hi > int64(len(m.b)) {
					vfail(t, "c08:outside", "list %d points to [%d,%d) outside the area; %s", i, c.lo, c.hi, in)
				}
			}
			rs = append(rs, rec.ceRanges...)
		}
		disjoint(t, "c08:overlap", in, rs)
	}
	vcases("C08.areas", n)
}

func TestVerif_C08_Image(t *testing.T) {
	r := vrand()
	n := 250
	if vthorough() {
		n = 1200
	}
	for k := 0; k < n; k++ {
		v, root, bad := vtree(rand.New(rand.NewSource(r.Int63())), k%2 == 0, k%3 == 0)
		if bad != "" {
			vfail(t, "c08:add", "%s", bad)
			continue
		}
		// names and targets that force continuations of every length
		for i := 0; i < 12; i++ {
			name := fmt.Sprintf("N%d", i) + strings.Repeat("n", r.Intn(700))
			o := &vobj{size: int64(r.Intn(3)) * iso9660.MaxPartSize / 2 * 2, url: "v:n"}
			if k%3 != 0 {
				o.size = int64(r.Intn(5000))
			}
			if i%3 == 0 {
				tg := strings.Repeat("../"+strings.Repeat("t", r.Intn(300)), 1+r.Intn(12)) + "/e"
				if root.add(name, &vnode{kind: 'l', target: tg}) {
					if err := v.AddSymlink(name, tg); err != nil {
						vfail(t, "c08:add", "%v", err)
					}
				}
			} else if root.add(name, &vnode{kind: 'f', obj: o}) {
				if err := v.AddFile(name, o); err != nil {
					vfail(t, "c08:add", "%v", err)
				}
			}
		}
		in := vdescribe(root)
		var buf bytes.Buffer
		if !vguard(t, "c08", in, func() {
			if _, err := v.WriteMetadataTo(&buf); err != nil {
				vfail(t, "c08:write", "%v; tree %s", err, in)
			}
		}) {
			continue
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c08:pvd", "%v", err)
			continue
		}
		tree, ext, err := m.readTree(p)
		if err != nil {
			vfail(t, "c08:read", "%v; tree %s", err, in)
			continue
		}
		var rs []vrange
		for _, e := range ext {
			if !strings.HasPrefix(e.what, "continuation") {
				rs = append(rs, vrange{e.lo * 2048, e.hi * 2048, e.what})
			}
		}
		var walk func(d *vfound, n *vnode)
		walk = func(d *vfound, n *vnode) {
			recs, _ := m.parseDir(d.start, uint32(d.size))
			for _, rec := range recs {
				rs = append(rs, rec.ceRanges...)
			}
			if len(d.dir) != len(n.kids) {
				vfail(t, "c08:names", "directory %.40q has %d entries, %d were added; tree %s", d.name, len(d.dir), len(n.kids), in)
			}
			for _, f := range d.dir {
				x := n.kids[f.name]
				if x == nil || x.kind != f.kind {
					vfail(t, "c08:names", "found %c %.80q that was never added; tree %s", f.kind, f.name, in)
					continue
				}
				for i, rec := range f.recs {
					// sequence of signatures: all of the entry's attributes in order
					sig := ""
					for _, e := range rec.su {
						sig += e.sig
					}
					want := strings.Repeat("NM", (len(f.name)+249)/250) + "PXTF"
					if f.kind == 'd' {
						want = "ERER" + want
					}
					if !strings.HasPrefix(sig, want) || f.kind != 'l' && sig != want || f.kind == 'l' && strings.Replace(sig[len(want):], "SL", "", -1) != "" {
						vfail(t, "c08:order", "record %d of %.60q has entries %s, expected %s; tree %s", i, f.name, sig, want, in)
					}
					if nm, err := rec.name(); err != nil || nm != f.name {
						vfail(t, "c08:names", "record %d of %.60q carries name %.60q, %v; tree %s", i, f.name, nm, err, in)
					}
				}
				if f.kind == 'd' {
					walk(f, x)
				}
			}
		}
		walk(tree, root)
		disjoint(t, "c08:overlap", in, rs)
	}
	vcases("C08.images", n)
}
