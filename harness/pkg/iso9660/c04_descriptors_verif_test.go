package iso9660_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func TestVerif_C04_Descriptor(t *testing.T) {
	r := vrand()
	n := 3000
	if vthorough() {
		n = 30000
	}
	for k := 0; k < n; k++ {
		p := iso9660.PrimaryVolumeDescriptor{
			SystemIdentifier:            vstr(r, aChars, 32),
			VolumeIdentifier:            vstr(r, dChars, 32),
			VolumeSetIdentifier:         vstr(r, dChars, 128),
			PublisherIdentifier:         vstr(r, aChars, 128),
			DataPreparerIdentifier:      vstr(r, aChars, 128),
			ApplicationIdentifier:       vstr(r, aChars, 128),
			CopyrightFileIdentifier:     vstr(r, dChars, 38),
			AbstractFileIdentifier:      vstr(r, dChars, 36),
			BibliographicFileIdentifier: vstr(r, dChars, 37),
			VolumeSpaceSize:             v32(r), VolumeSetSize: uint16(r.Uint32()), VolumeSequenceNumber: uint16(r.Uint32()),
			PathTableSize: v32(r), LTableStart: iso9660.LogicalBlockAddress(v32(r)), OptionalLTableStart: iso9660.LogicalBlockAddress(v32(r)),
			MTableStart: iso9660.LogicalBlockAddress(v32(r)), OptionalMTableStart: iso9660.LogicalBlockAddress(v32(r)),
			RootStart: iso9660.LogicalBlockAddress(v32(r)), RootLength: v32(r),
			RootModified: vtime(r, 1900, 2155), Created: vtime(r, 1, 9999), Modified: vtime(r, 1, 9999), Effective: vtime(r, 1, 9999),
		}
		in := fmt.Sprintf("%+v", p)
		var buf bytes.Buffer
		var cnt int64
		var err error
		if !vguard(t, "c04:pvd", in, func() { cnt, err = p.WriteTo(&buf) }) {
			continue
		}
		if err != nil || cnt != 2048 || buf.Len() != 2048 {
			vfail(t, "c04:size", "%s: wrote %d bytes, reported %d, %v", in, buf.Len(), cnt, err)
			continue
		}
		b := buf.Bytes()
		bad := func(what string, off int) {
			vfail(t, "c04:layout", "field %s at offset %d of %s", what, off, in)
		}
		str := func(what string, off, n int, s string) {
			if string(b[off:off+n]) != s+strings.Repeat(" ", n-len(s)) {
				bad(what, off)
			}
		}
		zero := func(off, n int) {
			for i := off; i < off+n; i++ {
				if b[i] != 0 {
					bad("unused", i)
					return
				}
			}
		}
		w32 := func(what string, off int, v uint32) {
			if binary.LittleEndian.Uint32(b[off:]) != v || binary.BigEndian.Uint32(b[off+4:]) != v {
				bad(what, off)
			}
		}
		w16 := func(what string, off int, v uint16) {
			if binary.LittleEndian.Uint16(b[off:]) != v || binary.BigEndian.Uint16(b[off+2:]) != v {
				bad(what, off)
			}
		}
		if string(b[:8]) != "\x01CD001\x01\x00" {
			bad("header", 0)
		}
		str("system identifier", 8, 32, p.SystemIdentifier)
		str("volume identifier", 40, 32, p.VolumeIdentifier)
		zero(72, 8)
		w32("volume space size", 80, p.VolumeSpaceSize)
		zero(88, 32)
		w16("volume set size", 120, p.VolumeSetSize)
		w16("volume sequence number", 124, p.VolumeSequenceNumber)
		w16("logical block size", 128, 2048)
		w32("path table size", 132, p.PathTableSize)
		if binary.LittleEndian.Uint32(b[140:]) != uint32(p.LTableStart) {
			bad("L table", 140)
		}
		if binary.LittleEndian.Uint32(b[144:]) != uint32(p.OptionalLTableStart) {
			bad("optional L table", 144)
		}
		if binary.BigEndian.Uint32(b[148:]) != uint32(p.MTableStart) {
			bad("M table", 148)
		}
		if binary.BigEndian.Uint32(b[152:]) != uint32(p.OptionalMTableStart) {
			bad("optional M table", 152)
		}
		if b[156] != 34 || b[157] != 0 || b[181] != 2 || b[182] != 0 || b[183] != 0 || b[188] != 1 || b[189] != 0 {
			bad("root record", 156)
		}
		w32("root extent", 158, uint32(p.RootStart))
		w32("root length", 166, p.RootLength)
		w16("root volume", 184, 1)
		m := p.RootModified.UTC()
		if int(b[174])+1900 != m.Year() || int(b[175]) != int(m.Month()) || int(b[176]) != m.Day() || int(b[177]) != m.Hour() || int(b[178]) != m.Minute() || int(b[179]) != m.Second() {
			bad("root date", 174)
		}
		str("volume set identifier", 190, 128, p.VolumeSetIdentifier)
		str("publisher", 318, 128, p.PublisherIdentifier)
		str("preparer", 446, 128, p.DataPreparerIdentifier)
		str("application", 574, 128, p.ApplicationIdentifier)
		str("copyright file", 702, 38, p.CopyrightFileIdentifier)
		str("abstract file", 740, 36, p.AbstractFileIdentifier)
		str("bibliographic file", 776, 37, p.BibliographicFileIdentifier)
		for i, d := range []time.Time{p.Created, p.Modified, time.Time{}, p.Effective} {
			if i != 2 && string(b[813+17*i:813+17*i+14]) != decFields(d) {
				bad("date", 813+17*i)
			}
		}
		if string(b[847:863]) != strings.Repeat("0", 16) || b[863] != 0 {
			bad("expiration", 847)
		}
		if b[881] != 1 || b[882] != 0 {
			bad("file structure version", 881)
		}
		zero(1395, 653)
		var q iso9660.PrimaryVolumeDescriptor
		if err := iso9660.DecodePrimaryVolumeDescriptor(bytes.NewReader(b), &q); err != nil {
			vfail(t, "c04:decode", "%v for %s", err, in)
			continue
		}
		norm := func(x *iso9660.PrimaryVolumeDescriptor) {
			for _, d := range []*time.Time{&x.RootModified, &x.Created, &x.Modified, &x.Effective} {
				*d = d.UTC()
			}
		}
		norm(&p)
		norm(&q)
		if !reflect.DeepEqual(p, q) {
			vfail(t, "c04:roundtrip", "%s decodes to %+v", in, q)
		}
	}
	vcases("C04.descriptors", n)
	// arbitrary identifier text is padded or cut to its field and never shifts the others
	for k := 0; k < 2000; k++ {
		var s strings.Builder
		for i := r.Intn(200); i > 0; i-- {
			s.WriteRune([]rune("aZ9 _é世🙂ßıŉ\xff?-")[r.Intn(14)])
		}
		l := 1 + r.Intn(128)
		for _, f := range []struct {
			n  string
			f  func(string, int) string
			cs string
		}{{"StrA", iso9660.StrA, aChars}, {"StrD", iso9660.StrD, dChars}} {
			var o string
			if !vguard(t, "c04:str", fmt.Sprintf("%s(%q,%d)", f.n, s.String(), l), func() { o = f.f(s.String(), l) }) {
				continue
			}
			if len(o) != l {
				vfail(t, "c04:field", "%s(%q,%d) has %d bytes", f.n, s.String(), l, len(o))
			}
			if x := strings.TrimRight(o, " "); strings.Trim(x, f.cs) != "" {
				vfail(t, "c04:charset", "%s(%q,%d) = %q", f.n, s.String(), l, o)
			}
		}
	}
	vcases("C04.identifiers", 2000)
	var tb bytes.Buffer
	cnt, err := (&iso9660.Terminator{}).WriteTo(&tb)
	if err != nil || cnt != 2048 || !bytes.Equal(tb.Bytes(), append([]byte("\xffCD001\x01"), make([]byte, 2041)...)) {
		vfail(t, "c04:terminator", "terminator of %d bytes: % x", tb.Len(), tb.Bytes()[:16])
	}
}

func TestVerif_C04_PathTable(t *testing.T) {
	r := vrand()
	n := 2000
	for k := 0; k < n; k++ {
		var pt iso9660.PathTable
		for i := r.Intn(30); i > 0; i-- {
			pt.Records = append(pt.Records, iso9660.PathTableRecord{
				Identifier:                    vstr(r, dChars, []int{1, 2, 30, 255}[r.Intn(4)]),
				ExtendedAttributeRecordLength: byte(r.Intn(256)),
				Location:                      iso9660.LogicalBlockAddress(v32(r)),
				ParentIndex:                   uint16(r.Uint32()),
			})
		}
		in := fmt.Sprintf("%+v", pt)
		for _, o := range []binary.ByteOrder{binary.LittleEndian, binary.BigEndian} {
			var want bytes.Buffer
			for _, rec := range pt.Records {
				want.WriteByte(byte(len(rec.Identifier)))
				want.WriteByte(rec.ExtendedAttributeRecordLength)
				binary.Write(&want, o, uint32(rec.Location))
				binary.Write(&want, o, rec.ParentIndex)
				want.WriteString(rec.Identifier)
				if len(rec.Identifier)%2 == 1 {
					want.WriteByte(0)
				}
			}
			var buf bytes.Buffer
			cnt, err := iso9660.NewPathTableEncoder(o, &buf).Encode(&pt)
			if err != nil || cnt != int64(want.Len()) || !bytes.Equal(buf.Bytes(), want.Bytes()) {
				vfail(t, "c04:pathtable", "%s in %v: reported %d, err %v, bytes % x", in, o, cnt, err, buf.Bytes())
			}
			if l := iso9660.PathTableEncodedLen(&pt); l != int64(want.Len()) {
				vfail(t, "c04:pathtable-size", "%s: computed size %d, actual %d", in, l, want.Len())
			}
		}
	}
	vcases("C04.pathtables", n)
	// the tables of a whole image list its directories
	n = 200
	for k := 0; k < n; k++ {
		v, root, bad := vtree(rand.New(rand.NewSource(r.Int63())), k%2 == 0, false)
		if bad != "" {
			vfail(t, "c04:add", "%s", bad)
			continue
		}
		in := vdescribe(root)
		if k%67 == 1 {
			// many directories, each with one of its own
			v = iso9660.NewVolume()
			wide := []int{130, 300, 2000}[k/67%3]
			in = fmt.Sprintf("%d directories that each hold a directory", wide)
			for i := 0; i < wide; i++ {
				if err := v.AddSymlink(fmt.Sprintf("d%d/s/l", i), "x"); err != nil {
					vfail(t, "c04:add", "%v", err)
				}
			}
		}
		var buf bytes.Buffer
		if _, err := v.WriteMetadataTo(&buf); err != nil {
			vfail(t, "c04:write", "%v; %s", err, in)
			continue
		}
		m := vimg{buf.Bytes()}
		p, err := m.pvd()
		if err != nil {
			vfail(t, "c04:pvd", "%v; %s", err, in)
			continue
		}
		tree, _, err := m.readTree(p)
		if err != nil {
			vfail(t, "c04:read", "%v; %s", err, in)
			continue
		}
		type ent struct {
			id     string
			loc    uint32
			parent int
		}
		read := func(start uint32, o binary.ByteOrder) (out []ent) {
			b := m.sector(start, int64(p.pathSize))
			for len(b) >= 8 {
				l := int(b[0])
				if 8+l+l%2 > len(b) {
					break
				}
				out = append(out, ent{string(b[8 : 8+l]), o.Uint32(b[2:]), int(o.Uint16(b[6:]))})
				b = b[8+l+l%2:]
			}
			if len(b) != 0 {
				vfail(t, "c04:table-size", "path table of declared size %d ends with % x; %s", p.pathSize, b, in)
			}
			return
		}
		lt, mt := read(p.lStart, binary.LittleEndian), read(p.mStart, binary.BigEndian)
		if !reflect.DeepEqual(lt, mt) {
			vfail(t, "c04:tables-differ", "L %v M %v; %s", lt, mt, in)
		}
		loc := map[uint32]uint32{} // directory -> parent
		var walk func(d *vfound)
		walk = func(d *vfound) {
			for _, f := range d.dir {
				if f.kind == 'd' {
					loc[f.start] = d.start
					walk(f)
				}
			}
		}
		loc[tree.start] = tree.start
		walk(tree)
		if len(lt) != len(loc) {
			vfail(t, "c04:table-count", "%d records for %d directories; %s", len(lt), len(loc), in)
			continue
		}
		base := -1
		for i, e := range lt {
			par, ok := loc[e.loc]
			if !ok {
				vfail(t, "c04:table-location", "record %d points to %d, no directory is there; %s", i, e.loc, in)
				break
			}
			if i == 0 {
				base = e.parent // numbering may start at 0 or 1
				if base != 0 && base != 1 {
					vfail(t, "c04:table-parent", "root record has parent %d", base)
				}
			}
			if pi := e.parent - base; pi < 0 || pi >= len(lt) || lt[pi].loc != par {
				vfail(t, "c04:table-parent", "record %d (%q) has parent number %d; %s", i, e.id, e.parent, in)
				break
			}
		}
	}
	vcases("C04.tables", n)
}
