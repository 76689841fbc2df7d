package iso9660_test

import (
	"bytes"
	"fmt"
	"math/rand"
	"path"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
)

// through writes the entries between unrelated ones and decodes them.
func through(r *rand.Rand, es []susp.SystemUseEntry) ([]susp.SystemUseEntry, error) {
	var buf bytes.Buffer
	px := &rrip.PosixEntry{Mode: 0444}
	if r.Intn(2) == 0 {
		px.WriteTo(&buf)
	}
	for _, e := range es {
		if e.Len() > 255 {
			return nil, fmt.Errorf("entry of %d bytes", e.Len())
		}
		if _, err := e.WriteTo(&buf); err != nil {
			return nil, err
		}
	}
	if r.Intn(2) == 0 {
		px.WriteTo(&buf)
	}
	return iso9660.DecodeSystemUseEntries(&buf)
}

func TestVerif_C07_Names(t *testing.T) {
	r := vrand()
	var names []string
	for l := 1; l <= 1100; l++ {
		names = append(names, strings.Repeat("n", l), strings.Repeat("é", l)+strings.Repeat(".", l%7), ("世界🙂" + strings.Repeat("ab", l))[:10+2*l])
	}
	n := 5000
	if vthorough() {
		n = 50000
	}
	for i := 0; i < n; i++ {
		names = append(names, vname(r, true))
	}
	for i := 0; i < 500; i++ {
		// every combination of a few characters, including dots
		s := ""
		for k := 1 + r.Intn(6); k > 0; k-- {
			s += []string{".", "..", "a", "é", " ", "\\", "~", "%", "🙂"}[r.Intn(9)]
		}
		names = append(names, s)
	}
	for _, s := range names {
		in := fmt.Sprintf("name of %d bytes %.80q", len(s), s)
		var es []susp.SystemUseEntry
		var err error
		if !vguard(t, "c07", in, func() { es, err = rrip.NewName(s) }) {
			continue
		}
		if err != nil {
			vfail(t, "c07:refused", "%s: %v", in, err)
			continue
		}
		if got, ok := rrip.DecodeName(es); !ok || got != s {
			vfail(t, "c07:name", "%s decodes to %q, %v", in, got, ok)
			continue
		}
		ds, err := through(r, es)
		if err != nil {
			vfail(t, "c07:name", "%s: %v", in, err)
			continue
		}
		if got, ok := rrip.DecodeName(ds); !ok || got != s {
			vfail(t, "c07:name", "%s is read back as %q, %v", in, got, ok)
		}
	}
	vcases("C07.names", len(names))
	// a name split at any place
	n = 0
	for l := 1; l <= 12; l++ {
		s := "a.b..c世d/.."[:l]
		s = strings.Replace(s, "/", "x", -1)
		for mask := 0; mask < 1<<uint(l-1); mask++ {
			n++
			var es []susp.SystemUseEntry
			last := 0
			for i := 1; i <= l; i++ {
				if i == l || mask>>uint(i-1)&1 == 1 {
					e, err := rrip.NewNamePart(s[last:i], i < l)
					if err != nil {
						es = nil
						break
					}
					es = append(es, e)
					last = i
				}
			}
			if es == nil {
				continue
			}
			if got, ok := rrip.DecodeName(es); !ok || got != s {
				vfail(t, "c07:split", "%q split as %b decodes to %q, %v", s, mask, got, ok)
			}
		}
	}
	if got, ok := rrip.DecodeName(nil); ok {
		vfail(t, "c07:none", "no entries decode to the name %q", got)
	}
	vcases("C07.splits", n)
}

func TestVerif_C07_Targets(t *testing.T) {
	r := vrand()
	var ts []string
	for l := 1; l <= 1100; l++ {
		ts = append(ts, strings.Repeat("s", l), "/"+strings.Repeat("世", l), strings.Repeat("k", l)+"/x", "../"+strings.Repeat("p", l)+"/..")
	}
	seg := []string{".", "..", "a", "bb", "...", "é", ".h", "h.", strings.Repeat("q", 248), strings.Repeat("q", 249), strings.Repeat("w", 496), strings.Repeat("w", 497)}
	for i := 0; i < 1<<12; i++ {
		var p []string
		for k, x := 1+r.Intn(6), i; k > 0; k-- {
			p = append(p, seg[x%len(seg)])
			x /= len(seg)
		}
		s := strings.Join(p, "/")
		ts = append(ts, s, "/"+s, s+"/", "//"+s, strings.Replace(s, "/", "//", 1))
	}
	ts = append(ts, "/", "//", "/.", "/..", ".", "..", "./", "../", "../..", "../../..", "a/..", "/a/..")
	n := 5000
	if vthorough() {
		n = 50000
	}
	for i := 0; i < n; i++ {
		ts = append(ts, vtarget(r))
	}
	for _, s := range ts {
		in := fmt.Sprintf("target of %d bytes %.80q", len(s), s)
		var es []susp.SystemUseEntry
		var err error
		if !vguard(t, "c07", in, func() { es, err = rrip.NewSymlink(s) }) {
			continue
		}
		if err != nil {
			vfail(t, "c07:refused", "%s: %v", in, err)
			continue
		}
		for k, d := range [][]susp.SystemUseEntry{es, nil} {
			if k == 1 {
				if d, err = through(r, es); err != nil {
					vfail(t, "c07:target", "%s: %v", in, err)
					break
				}
			}
			got, ok := rrip.DecodeSymlink(d)
			if !ok || path.Clean(got) != path.Clean(s) || got == "" {
				vfail(t, "c07:target", "%s is read back as %q, %v", in, got, ok)
				break
			}
			if path.Clean(s) == s && got != s && got != "/" && s != "/" {
				vfail(t, "c07:target", "%s is read back as %q", in, got)
				break
			}
		}
		// the independent reader of the entries agrees
		var buf bytes.Buffer
		for _, e := range es {
			e.WriteTo(&buf)
		}
		su, err := parseSU(buf.Bytes())
		if err != nil {
			vfail(t, "c07:target", "%s: %v", in, err)
			continue
		}
		rec := vrec{su: su}
		got, ok, err := rec.symlink()
		if err != nil || !ok || path.Clean("x/"+got) != path.Clean("x/"+s) && path.Clean(got) != path.Clean(s) && !(got == "" && path.Clean(s) == "/") {
			vfail(t, "c07:target", "%s is recorded as %q, %v", in, got, err)
		}
	}
	if got, ok := rrip.DecodeSymlink(nil); ok {
		vfail(t, "c07:none", "no entries decode to the target %q", got)
	}
	vcases("C07.targets", len(ts))
}
