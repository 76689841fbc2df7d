package iso9660_test

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/iso9660/datetime"
	"github.com/NVIDIA/vdisc/pkg/iso9660/rrip"
)

func checkDate(t *testing.T, x time.Time) {
	in := x.Format(time.RFC3339Nano)
	want := x.Truncate(time.Second).Unix()
	y := x.UTC().Year()
	if y >= 1900 && y <= 2155 {
		var e datetime.EntryDateTime
		if !vguard(t, "c12", in, func() { e = datetime.NewEntryDateTime(x) }) {
			return
		}
		if !bytes.Equal(e[:6], stamp7(x)) {
			vfail(t, "c12:short-bytes", "%s is recorded as % x", in, e)
		}
		if got := e.Timestamp(); got.Unix() != want {
			vfail(t, "c12:short", "%s is read back as %s", in, got)
		}
	}
	if y >= 1 && y <= 9999 {
		var d datetime.DecDateTime
		if !vguard(t, "c12", in, func() { d = datetime.NewDecDateTime(x) }) {
			return
		}
		if string(d[:14]) != decFields(x) || string(d[14:16]) != fmt.Sprintf("%02d", x.Nanosecond()/10000000) {
			vfail(t, "c12:long-bytes", "%s is recorded as %q", in, d[:])
		}
		if got := d.Timestamp(); got.Unix() != want {
			vfail(t, "c12:long", "%s is read back as %s", in, got)
		}
	}
}

func zone(q int) *time.Location { return time.FixedZone("z", 900*q) }

func TestVerif_C12_Dates(t *testing.T) {
	r := vrand()
	n := 0
	// every day of the short form's range, and the edges of every month in the long form's range
	for d := time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC); d.Year() <= 2155; d = d.AddDate(0, 0, 1) {
		checkDate(t, d.Add(time.Duration(r.Intn(86400))*time.Second).In(zone(r.Intn(97)-48)))
		checkDate(t, d.In(zone(r.Intn(97)-48)))
		checkDate(t, d.Add(86399*time.Second+999999999).In(zone(r.Intn(97)-48)))
		n += 3
	}
	step := 37
	if vthorough() {
		step = 1
	}
	for y := 1; y <= 9999; y += 1 + r.Intn(step) {
		for m := time.January; m <= time.December; m++ {
			d := time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
			checkDate(t, d.In(zone(r.Intn(97)-48)))
			if y > 1 || m > 1 {
				checkDate(t, d.Add(-1).In(zone(r.Intn(97)-48)))
			}
			checkDate(t, d.Add(time.Duration(r.Int63n(28*86400))*time.Second+time.Duration(r.Intn(1e9))))
			n += 3
		}
	}
	// every zone and every second of a day
	for q := -48; q <= 56; q++ {
		checkDate(t, time.Date(2020, 2, 29, 23, 59, 59, 0, zone(q)))
		checkDate(t, time.Date(1999, 12, 31, 12, 30, 0, 0, zone(q)))
		n += 2
	}
	for s := 0; s < 86400; s++ {
		checkDate(t, time.Date(2021, 3, 4, 0, 0, s, 0, time.UTC))
		n++
	}
	vcases("C12.dates", n)
}

func TestVerif_C12_InPlace(t *testing.T) {
	r := vrand()
	n := 3000
	for k := 0; k < n; k++ {
		// directory records, timestamp entries and descriptors carry the dates they were given
		x := vtime(r, 1900, 2155).In(zone(r.Intn(97) - 48))
		if y := x.UTC().Year(); y < 1900 || y > 2155 {
			continue
		}
		in := x.Format(time.RFC3339)
		rec := iso9660.DirectoryRecord{Identifier: "A", Recorded: x}
		var buf bytes.Buffer
		rec.WriteTo(&buf)
		var got iso9660.DirectoryRecord
		if buf.Len() > 0 {
			if err := iso9660.DecodeDirectoryRecord(bytes.NewReader(buf.Bytes()[1:]), &got); err != nil || got.Recorded.Unix() != x.Unix() {
				vfail(t, "c12:record", "record date %s is read back as %s, %v", in, got.Recorded, err)
			}
		}
		y := x.Add(time.Hour)
		for _, long := range []bool{false, true} {
			z := vtime(r, 1900, 2155)
			tf := &rrip.Timestamps{LongForm: long, Created: &x, Modified: &y, Access: &z, Backup: &x}
			if k%3 == 0 {
				tf.Access, tf.Created = nil, nil
			}
			buf.Reset()
			tf.WriteTo(&buf)
			es, err := iso9660.DecodeSystemUseEntries(&buf)
			if err != nil || len(es) != 1 || !sameEntry(tf, es[0]) {
				vfail(t, "c12:entry", "timestamps %+v (long %v) are read back as %v, %v", tf, long, es, err)
			}
		}
	}
	// Size of the file in a volume keeps its date
	for k := 0; k < 200; k++ {
		p := iso9660.PrimaryVolumeDescriptor{Created: vtime(r, 1, 9999), Modified: vtime(r, 1, 9999), Effective: vtime(r, 1, 9999), RootModified: vtime(r, 1900, 2155), RootLength: 2048}
		var buf bytes.Buffer
		p.WriteTo(&buf)
		var q iso9660.PrimaryVolumeDescriptor
		if err := iso9660.DecodePrimaryVolumeDescriptor(&buf, &q); err != nil || !q.Created.Equal(p.Created) || !q.Modified.Equal(p.Modified) || !q.Effective.Equal(p.Effective) || !q.RootModified.Equal(p.RootModified) {
			vfail(t, "c12:descriptor", "dates %v %v %v %v are read back as %v %v %v %v, %v", p.Created, p.Modified, p.Effective, p.RootModified, q.Created, q.Modified, q.Effective, q.RootModified, err)
		}
	}
	vcases("C12.inplace", n+200)
}
