package iso9660_test

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func TestVerif_C05_Records(t *testing.T) {
	r := vrand()
	n := 30000
	if vthorough() {
		n = 300000
	}
	for k := 0; k < n; k++ {
		rec, want, in := vrecord(r, 255)
		var buf bytes.Buffer
		var cnt int64
		var err error
		l := rec.Len()
		if !vguard(t, "c05", in, func() { cnt, err = rec.WriteTo(&buf) }) {
			continue
		}
		b := buf.Bytes()
		if err != nil || cnt != int64(len(b)) || l != len(b) || len(b) == 0 || int(b[0]) != len(b) {
			vfail(t, "c05:length", "%s: Len()=%d, wrote %d, reported %d, err %v", in, l, len(b), cnt, err)
			continue
		}
		ok := len(b) == len(want)
		if ok {
			fixed := append([]byte(nil), b...)
			fixed[24] = want[24]
			ok = bytes.Equal(fixed[:33], want[:33])
			pos := 33
			for _, c := range []int{len(rec.Identifier) + 1 - len(rec.Identifier)%2} {
				ok = ok && bytes.Equal(fixed[pos:pos+c], want[pos:pos+c])
				pos += c
			}
			for i := range rec.SystemUse {
				e := rec.SystemUse[i].Len()
				ok = ok && pos+e <= len(b) && sameEncoding(b[pos:pos+e], want[pos:pos+e])
				pos += e
			}
		}
		if !ok {
			vfail(t, "c05:bytes", "%s encodes as % x, expected % x", in, b, want)
			continue
		}
		var got iso9660.DirectoryRecord
		if !vguard(t, "c05", "decoding "+in, func() { err = iso9660.DecodeDirectoryRecord(bytes.NewReader(b[1:]), &got) }) {
			continue
		}
		if err != nil {
			vfail(t, "c05:decode", "%s: %v", in, err)
			continue
		}
		if d := sameRecord(&rec, &got); d != "" {
			vfail(t, "c05:roundtrip", "%s differs in %s: %+v", in, d, got)
		}
	}
	vcases("C05.records", n)
}

func TestVerif_C05_Refuse(t *testing.T) {
	r := vrand()
	n := 5000
	for k := 0; k < n; k++ {
		rec, _, in := vrecord(r, 255)
		if k%2 == 0 {
			rec.Identifier = string(bytes.Repeat([]byte{'I'}, 31+r.Intn(300)))
			in = fmt.Sprintf("identifier of %d bytes", len(rec.Identifier))
		} else {
			for rec.Len() <= 255 {
				v := ventry(r)
				if v.e == nil {
					continue
				}
				rec.SystemUse = append(rec.SystemUse, v.e)
				in += " " + v.desc
			}
		}
		var buf bytes.Buffer
		var err error
		if vpanics(func() { _, err = rec.WriteTo(&buf) }) || err != nil {
			continue
		}
		vfail(t, "c05:not-refused", "%s: record of %d bytes written as % x", in, rec.Len(), buf.Bytes())
	}
	vcases("C05.refused", n)
}
