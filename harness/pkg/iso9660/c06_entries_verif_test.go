package iso9660_test

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
)

func TestVerif_C06_Entries(t *testing.T) {
	r := vrand()
	n := 40000
	if vthorough() {
		n = 400000
	}
	for k := 0; k < n; k++ {
		v := ventry(r)
		if v.e == nil {
			vfail(t, "c06:refused", "%s", v.desc)
			continue
		}
		var buf bytes.Buffer
		var cnt int64
		var err error
		l := v.e.Len()
		if !vguard(t, "c06", v.desc, func() { cnt, err = v.e.WriteTo(&buf) }) {
			continue
		}
		b := buf.Bytes()
		if err != nil || cnt != int64(len(b)) || l != len(b) || len(b) < 4 || int(b[2]) != len(b) {
			vfail(t, "c06:length", "%s: Len()=%d, wrote %d bytes, reported %d, err %v: % x", v.desc, l, len(b), cnt, err, b)
			continue
		}
		if !sameEncoding(b, v.want) {
			vfail(t, "c06:bytes", "%s encodes as % x, expected % x", v.desc, b, v.want)
			continue
		}
		var es []susp.SystemUseEntry
		if !vguard(t, "c06", "decoding "+v.desc, func() { es, err = iso9660.DecodeSystemUseEntries(bytes.NewReader(b)) }) {
			continue
		}
		if err != nil || len(es) != 1 {
			vfail(t, "c06:decode", "%s decodes to %d entries, err %v", v.desc, len(es), err)
			continue
		}
		if !sameEntry(v.e, es[0]) {
			vfail(t, "c06:roundtrip", "%s decodes to %+v", v.desc, es[0])
		}
	}
	vcases("C06.entries", n)
	// several entries after one another
	for k := 0; k < 2000; k++ {
		var all []susp.SystemUseEntry
		var buf bytes.Buffer
		desc := ""
		for i := r.Intn(8); i > 0; i-- {
			v := ventry(r)
			if v.e == nil {
				continue
			}
			all = append(all, v.e)
			desc += v.desc + " "
			v.e.WriteTo(&buf)
		}
		es, err := iso9660.DecodeSystemUseEntries(&buf)
		if err != nil || len(es) != len(all) {
			vfail(t, "c06:list", "%s decodes to %d entries, err %v", desc, len(es), err)
			continue
		}
		for i := range es {
			if !sameEntry(all[i], es[i]) {
				vfail(t, "c06:list", "%s: entry %d decodes to %+v", desc, i, es[i])
				break
			}
		}
	}
	vcases("C06.lists", 2000)
}

func TestVerif_C06_Refuse(t *testing.T) {
	n := 0
	for l := 0; l <= 600; l++ {
		s := strings.Repeat("n", l)
		for _, cont := range []bool{false, true} {
			n += 2
			e, err := rrip.NewNamePart(s, cont)
			if l+5 > 255 && err == nil {
				vfail(t, "c06:too-long", "NM of %d bytes accepted, length %d", l, e.Len())
			}
			if l+5 <= 255 && (err != nil || e.Len() != l+5) {
				vfail(t, "c06:fits", "NM of %d bytes: %v", l, err)
			}
			e, err = rrip.NewSymlinkPart(0, s, cont)
			if l+7 > 255 && err == nil {
				vfail(t, "c06:too-long", "SL of %d bytes accepted, length %d", l, e.Len())
			}
			if l+7 <= 255 && (err != nil || e.Len() != l+7) {
				vfail(t, "c06:fits", "SL of %d bytes: %v", l, err)
			}
		}
	}
	for a := 0; a <= 260; a += 13 {
		for b := 0; b <= 260; b += 13 {
			for _, c := range []int{0, 1, 247 - a - b, 248 - a - b, 246 - a - b, 100, 255} {
				if c < 0 {
					continue
				}
				n++
				e, err := susp.NewExtensionsReferenceEntry(1, strings.Repeat("a", a), strings.Repeat("b", b), strings.Repeat("c", c))
				in := fmt.Sprintf("ER with texts of %d, %d, %d bytes", a, b, c)
				if 8+a+b+c > 255 && err == nil {
					vfail(t, "c06:too-long", "%s accepted, length %d", in, e.Len())
				}
				if 8+a+b+c <= 255 && (err != nil || e.Len() != 8+a+b+c) {
					vfail(t, "c06:fits", "%s: %v", in, err)
				}
			}
		}
	}
	vcases("C06.limits", n)
}
