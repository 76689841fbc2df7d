package iso9660_test

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
	"github.com/NVIDIA/vdisc/pkg/iso9660/susp"
)

const (
	aChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_!\"%&'()*+,-./:;<=>?"
	dChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"
)

func vstr(r *rand.Rand, cs string, max int) string {
	n := r.Intn(max + 1)
	if r.Intn(4) == 0 {
		n = max
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = cs[r.Intn(len(cs))]
	}
	return string(b)
}

func vtime(r *rand.Rand, lo, hi int) time.Time {
	return time.Date(lo+r.Intn(hi-lo+1), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
}

func v32(r *rand.Rand) uint32 {
	switch r.Intn(4) {
	case 0:
		return ^uint32(0) - uint32(r.Intn(3))
	case 1:
		return uint32(r.Intn(3))
	}
	return r.Uint32()
}

func decFields(t time.Time) string {
	t = t.UTC()
	return fmt.Sprintf("%04d%02d%02d%02d%02d%02d", t.Year(), t.Month(), t.Day(), t.Hour(), t.Minute(), t.Second())
}

// vent is a system use entry with its expected encoding and description.
type vent struct {
	e    susp.SystemUseEntry
	want []byte
	desc string
}

func b32(v uint32) []byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint32(b, v)
	binary.BigEndian.PutUint32(b[4:], v)
	return b
}

func su(sig string, body ...[]byte) []byte {
	b := bytes.Join(body, nil)
	return append([]byte{sig[0], sig[1], byte(4 + len(b)), 1}, b...)
}

func stamp7(t time.Time) []byte {
	t = t.UTC()
	return []byte{byte(t.Year() - 1900), byte(t.Month()), byte(t.Day()), byte(t.Hour()), byte(t.Minute()), byte(t.Second())}
}

const printable = "abcXYZ019_-.~ ,=é世🙂"

func vtext(r *rand.Rand, max int) string {
	n := r.Intn(max + 1)
	if r.Intn(3) == 0 {
		n = max
	}
	rs := []rune(printable)
	var b strings.Builder
	for b.Len() < n {
		b.WriteRune(rs[r.Intn(len(rs))])
	}
	return b.String()[:n]
}

// ventry makes a random entry. The encoding of dates is left to the offset byte of the implementation.
func ventry(r *rand.Rand) vent {
	switch r.Intn(8) {
	case 0:
		n := byte(r.Intn(256))
		return vent{susp.NewSharingProtocolEntry(n), su("SP", []byte{0xbe, 0xef, n}), fmt.Sprintf("SP(%d)", n)}
	case 1:
		return vent{susp.NewTerminatorEntry(), su("ST"), "ST"}
	case 2:
		a, b, c := v32(r), v32(r), v32(r)
		return vent{susp.NewContinuationAreaEntry(a, b, c), su("CE", b32(a), b32(b), b32(c)), fmt.Sprintf("CE(%d,%d,%d)", a, b, c)}
	case 3:
		for {
			a, b, c := vtext(r, 90), vtext(r, 90), vtext(r, 90)
			if len(a)+len(b)+len(c)+8 > 255 {
				continue
			}
			ver := byte(r.Intn(256))
			e, err := susp.NewExtensionsReferenceEntry(ver, a, b, c)
			if err != nil {
				return vent{nil, nil, fmt.Sprintf("NewExtensionsReferenceEntry(%d,%q,%q,%q): %v", ver, a, b, c, err)}
			}
			return vent{e, su("ER", []byte{byte(len(a)), byte(len(b)), byte(len(c)), ver}, []byte(a), []byte(b), []byte(c)), fmt.Sprintf("ER(%d,%d,%d,%d)", ver, len(a), len(b), len(c))}
		}
	case 4:
		s := vtext(r, 250)
		cont := r.Intn(2) == 0
		e, err := rrip.NewNamePart(s, cont)
		if err != nil {
			return vent{nil, nil, fmt.Sprintf("NewNamePart(%q,%v): %v", s, cont, err)}
		}
		f := byte(0)
		if cont {
			f = 1
		}
		return vent{e, su("NM", []byte{f}, []byte(s)), fmt.Sprintf("NM(%q,%v)", s, cont)}
	case 5:
		p := &rrip.PosixEntry{Mode: os.FileMode(v32(r)), Nlink: v32(r), Uid: v32(r), Gid: v32(r), Ino: v32(r)}
		return vent{p, su("PX", b32(uint32(p.Mode)), b32(p.Nlink), b32(p.Uid), b32(p.Gid), b32(p.Ino)), fmt.Sprintf("PX%+v", *p)}
	case 6:
		fl := rrip.SymlinkComponentFlag([]byte{0, 1, 2, 4, 8}[r.Intn(5)])
		s := ""
		if fl < 2 {
			s = vtext(r, 248)
		}
		cont := r.Intn(2) == 0
		e, err := rrip.NewSymlinkPart(fl, s, cont)
		if err != nil {
			return vent{nil, nil, fmt.Sprintf("NewSymlinkPart(%d,%q,%v): %v", fl, s, cont, err)}
		}
		f := byte(0)
		if cont {
			f = 1
		}
		return vent{e, su("SL", []byte{f, byte(fl), byte(len(s))}, []byte(s)), fmt.Sprintf("SL(%d,%q,%v)", fl, s, cont)}
	}
	tf := &rrip.Timestamps{LongForm: r.Intn(2) == 0}
	flags := byte(0)
	var body []byte
	fs := []**time.Time{&tf.Created, &tf.Modified, &tf.Access, &tf.Attributes, &tf.Backup, &tf.Expiration, &tf.Effective}
	for i, f := range fs {
		if r.Intn(2) == 0 {
			x := vtime(r, 1900, 2155).In(time.FixedZone("x", 900*(r.Intn(97)-48)))
			if y := x.UTC().Year(); y < 1900 || y > 2155 {
				x = x.UTC()
			}
			*f = &x
			flags |= 1 << uint(i)
			if tf.LongForm {
				body = append(body, []byte(decFields(x)+"00\x00")...)
			} else {
				body = append(body, append(stamp7(x), 0)...)
			}
		}
	}
	if tf.LongForm {
		flags |= 0x80
	}
	return vent{tf, su("TF", []byte{flags}, body), fmt.Sprintf("TF(%x)", flags)}
}

// sameEncoding compares encodings; the zone byte of each date is not compared.
func sameEncoding(got, want []byte) bool {
	if len(got) != len(want) {
		return false
	}
	g := append([]byte(nil), got...)
	if len(g) > 5 && string(g[:2]) == "TF" && g[4] == want[4] {
		step := 7
		if g[4]&0x80 != 0 {
			step = 17
		}
		for i := 5 + step - 1; i < len(g); i += step {
			g[i] = want[i]
		}
	}
	return bytes.Equal(g, want)
}

// sameEntry compares two entries, times by instant.
func sameEntry(a, b susp.SystemUseEntry) bool {
	x, ok1 := a.(*rrip.Timestamps)
	y, ok2 := b.(*rrip.Timestamps)
	if ok1 != ok2 {
		return false
	}
	if !ok1 {
		return reflect.DeepEqual(a, b)
	}
	if x.LongForm != y.LongForm {
		return false
	}
	p := []*time.Time{x.Created, x.Modified, x.Access, x.Attributes, x.Backup, x.Expiration, x.Effective}
	q := []*time.Time{y.Created, y.Modified, y.Access, y.Attributes, y.Backup, y.Expiration, y.Effective}
	for i := range p {
		if (p[i] == nil) != (q[i] == nil) || p[i] != nil && !p[i].Truncate(time.Second).Equal(*q[i]) {
			return false
		}
	}
	return true
}

func vrecord(r *rand.Rand, room int) (rec iso9660.DirectoryRecord, want []byte, desc string) {
	id := vstr(r, dChars+";.", 30)
	if r.Intn(5) == 0 {
		id = string([]byte{byte(r.Intn(2))})
	}
	if id == "" {
		id = "X"
	}
	rec = iso9660.DirectoryRecord{
		Identifier: id, Start: iso9660.LogicalBlockAddress(v32(r)), Length: v32(r), Flags: iso9660.FileFlag(r.Intn(256)),
		Recorded: vtime(r, 1900, 2155), ExtendedAttrRecordLength: byte(r.Intn(256)), FileUnitSize: byte(r.Intn(256)), InterleaveGap: byte(r.Intn(256)), VolumeID: uint16(r.Uint32()),
	}
	desc = fmt.Sprintf("%+v", rec)
	b := make([]byte, 33)
	b[1] = rec.ExtendedAttrRecordLength
	copy(b[2:], b32(uint32(rec.Start)))
	copy(b[10:], b32(rec.Length))
	copy(b[18:], stamp7(rec.Recorded))
	b[25], b[26], b[27] = byte(rec.Flags), rec.FileUnitSize, rec.InterleaveGap
	binary.LittleEndian.PutUint16(b[28:], rec.VolumeID)
	binary.BigEndian.PutUint16(b[30:], rec.VolumeID)
	b[32] = byte(len(id))
	b = append(b, id...)
	if len(id)%2 == 0 {
		b = append(b, 0)
	}
	for i := r.Intn(6); i > 0; i-- {
		v := ventry(r)
		if v.e == nil || len(b)+len(v.want) > room {
			continue
		}
		rec.SystemUse = append(rec.SystemUse, v.e)
		b = append(b, v.want...)
		desc += " " + v.desc
	}
	b[0] = byte(len(b))
	return rec, b, desc
}

func sameRecord(a, b *iso9660.DirectoryRecord) string {
	switch {
	case a.Identifier != b.Identifier:
		return "identifier"
	case a.Start != b.Start:
		return "extent"
	case a.Length != b.Length:
		return "length"
	case a.Flags != b.Flags:
		return "flags"
	case !a.Recorded.Truncate(time.Second).Equal(b.Recorded):
		return "date"
	case a.ExtendedAttrRecordLength != b.ExtendedAttrRecordLength:
		return "extended attribute length"
	case a.FileUnitSize != b.FileUnitSize || a.InterleaveGap != b.InterleaveGap:
		return "interleave"
	case a.VolumeID != b.VolumeID:
		return "volume"
	case len(a.SystemUse) != len(b.SystemUse):
		return "number of system use entries"
	}
	for i := range a.SystemUse {
		if !sameEntry(a.SystemUse[i], b.SystemUse[i]) {
			return fmt.Sprintf("system use entry %d", i)
		}
	}
	return ""
}

// ventN makes an entry of exactly n bytes (5..255) that can be told from others.
func ventN(r *rand.Rand, n int, tag int) susp.SystemUseEntry {
	s := fmt.Sprintf("%d.", tag)
	for len(s) < n {
		s += "x"
	}
	if n-5 < len(s) {
		s = s[:n-5]
	}
	e, err := rrip.NewNamePart(s, r.Intn(2) == 0)
	if err != nil {
		panic(err)
	}
	return e
}
