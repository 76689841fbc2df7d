package s3driver_test

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"testing"
	"time"

	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
)

const mib = 1 << 20

func TestVerif_C18_S3(t *testing.T) {
	r := vrand()
	rounds := 600
	if vthorough() {
		rounds = 6000
	}
	for k := 0; k < rounds; k++ {
		b, svc := newBucket()
		if k%4 == 1 {
			b.slow = time.Duration(r.Intn(3)) * time.Millisecond
		}
		fails := k%3 == 2
		if fails {
			b.failPut, b.failPart, b.failCreate, b.failComplete = true, 1, r.Intn(2) == 0, true
		}
		w := s3driver.NewObjectWriter(svc, "b", "k", "s3://b/k")
		in := fmt.Sprintf("store (refusing %v):", fails)
		var want []byte
		n := r.Intn(4)
		mode := r.Intn(4) // 0,1: write; 2: nothing at all; 3: one copy from a stream
		if mode == 2 {
			n = 0
		}
		aborted, writeErr := false, false
		vwithin(t, "c18:s3", in, 60*time.Second, func() {
			if mode == 3 {
				size := []int{0, 10, 5*mib - 1, 5*mib + 10}[r.Intn(4)]
				if size > mib && k%8 != 3 {
					size = 100
				}
				want = vblock[:size]
				in += fmt.Sprintf(" ReadFrom(%d)", size)
				m, err := io.Copy(w, &vstream{r: r, data: want, failAt: -1})
				if err != nil {
					writeErr = true
				} else if m != int64(size) {
					vfail(t, "c18:s3:count", "%s reports %d bytes", in, m)
				}
			}
			for i := 0; i < n && mode < 2; i++ {
				size := r.Intn(2000)
				if k%40 == 0 {
					size = 5*mib + r.Intn(100)
				}
				p := vblock[len(want) : len(want)+size]
				in += fmt.Sprintf(" Write(%d)", size)
				m, err := w.Write(p)
				if err != nil {
					writeErr = true
					break
				}
				if m != size {
					vfail(t, "c18:s3:count", "%s returns %d", in, m)
				}
				want = append(append([]byte(nil), want...), p...)
			}
			if mode == 3 {
				b.mu.Lock()
				_, early := b.objects["/b/k"]
				b.mu.Unlock()
				if early {
					vfail(t, "c18:s3:readfrom-early", "%s: the object exists before it is committed", in)
				}
			} else {
				b.mu.Lock()
				_, early := b.objects["/b/k"]
				b.mu.Unlock()
				if early {
					vfail(t, "c18:s3:early", "%s: the object exists before it is committed", in)
				}
			}
			if r.Intn(3) == 0 && mode != 3 {
				in += " Abort()"
				w.Abort()
				aborted = true
			}
			in += " Commit()"
			ci, err := w.Commit()
			b.mu.Lock()
			got, ok := b.objects["/b/k"]
			b.mu.Unlock()
			switch {
			case aborted:
				if err == nil || ok {
					vfail(t, "c18:s3:aborted", "%s gives %v; object present %v", in, err, ok)
				}
			case fails:
				if err == nil || ok {
					vfail(t, "c18:s3:refused", "%s gives %v; object present %v", in, err, ok)
				}
			default:
				if err != nil || writeErr {
					vfail(t, "c18:s3:commit", "%s fails: %v", in, err)
				} else if !ok || !bytes.Equal(got, want) {
					vfail(t, "c18:s3:content", "%s: object present %v with %d bytes, %d were written", in, ok, len(got), len(want))
				} else if ci.ObjectURL() != "s3://b/k" {
					vfail(t, "c18:s3:url", "%s names the object %q", in, ci.ObjectURL())
				}
				w.Abort()
				if _, ok := b.objects["/b/k"]; !ok {
					vfail(t, "c18:s3:gone", "%s then Abort removes the object", in)
				}
			}
		})
	}
	vcases("C18.s3", rounds)
}

var _ = context.Background
