package s3util_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"

	"github.com/NVIDIA/vdisc/pkg/s3util"
)

const mib = 1 << 20

// vbody makes an input of a kind over content.
func vbody(r *rand.Rand, kind int, data []byte) (io.Reader, string) {
	switch kind {
	case 0:
		return &vstream{r: r, data: data, failAt: -1}, "stream"
	case 1:
		return &vstream{r: r, data: data, failAt: -1, eofNow: true}, "stream that ends with its last bytes"
	case 2:
		return bytes.NewReader(data), "seekable reader"
	case 3:
		return vseeker{bytes.NewReader(data)}, "seekable stream"
	case 4:
		// positioned behind a header that does not belong to the input
		b := append([]byte("header--"), data...)
		rd := bytes.NewReader(b)
		rd.Seek(8, io.SeekStart)
		return rd, "seekable reader positioned after 8 bytes"
	default:
		b := append([]byte("header--"), data...)
		rd := bytes.NewReader(b)
		rd.Seek(8, io.SeekStart)
		return vseeker{rd}, "seekable stream positioned after 8 bytes"
	}
}

func TestVerif_C24_Upload(t *testing.T) {
	r := vrand()
	part := int64(5 * mib)
	sizes := []int64{0, 1, 17, part - 1, part, part + 1, 2*part - 1, 2 * part, 2*part + 1, 3*part + 12345, 6*part + 7}
	if vthorough() {
		for i := 0; i < 60; i++ {
			sizes = append(sizes, r.Int63n(7*part))
		}
	}
	cases := 0
	for _, size := range sizes {
		for kind := 0; kind < 6; kind++ {
			cases++
			at := r.Intn(len(vblock) - int(size))
			data := vblock[at : at+int(size)]
			body, what := vbody(r, kind, data)
			b, svc := newBucket()
			count := int64(0)
			ps := part
			if kind%2 == 1 && size > part {
				ps = part + r.Int63n(mib)
			}
			conc := 1 + r.Intn(4)
			up := s3util.NewS3Uploader(svc, func(u *s3util.S3Uploader) {
				u.PartSize = ps
				u.Concurrency = conc
				u.ProgressCounter = &count
			})
			in := fmt.Sprintf("upload of %d bytes from a %s in parts of %d", size, what, ps)
			var err error
			if !vwithin(t, "c24:upload", in, 60*time.Second, func() {
				_, err = up.Upload(&s3util.S3UploadInput{Bucket: aws.String("b"), Key: aws.String("k"), Body: body})
			}) {
				continue
			}
			if err != nil || b.broken != "" {
				vfail(t, "c24:error", "%s fails: %v %s", in, err, b.broken)
				continue
			}
			got, ok := b.objects["/b/k"]
			if !ok || !vsame(got, data) {
				vfail(t, "c24:content", "%s stores %d bytes (present %v) that differ from the input", in, len(got), ok)
			}
			for i, n := range b.parts {
				if i < len(b.parts)-1 && int64(n) != ps || int64(n) > ps || n == 0 && len(b.parts) > 1 {
					vfail(t, "c24:parts", "%s: part sizes %v", in, b.parts)
					break
				}
			}
			if b.dups > 0 {
				vfail(t, "c24:twice", "%s sends %d parts twice", in, b.dups)
			}
		}
	}
	vcases("C24.uploads", cases)
}

// vhuge is a seekable input too large to hold.
type vhuge struct {
	size, pos int64
	reads     int
}

func (v *vhuge) Read(p []byte) (int, error) { return 0, errors.New("stopped") }
func (v *vhuge) ReadAt(p []byte, off int64) (int, error) {
	return 0, errors.New("stopped")
}
func (v *vhuge) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += v.pos
	case io.SeekEnd:
		off += v.size
	}
	v.pos = off
	return off, nil
}

// Known lengths: the part size grows so that the limit holds.
func TestVerif_C24_PartLimit(t *testing.T) {
	r := vrand()
	cases := 0
	part := int64(5 * mib)
	for max := 1; max <= 5; max++ {
		for _, size := range []int64{part * int64(max), part*int64(max) - 1, part*int64(max) + 1, part*int64(max) + int64(max)*3 + 1, 25 * mib} {
			if size > int64(len(vblock)) {
				continue
			}
			cases++
			b, svc := newBucket()
			up := s3util.NewS3Uploader(svc, func(u *s3util.S3Uploader) {
				u.PartSize = part
				u.MaxUploadParts = max
			})
			data := vblock[:size]
			body, what := vbody(r, []int{2, 3, 4, 5}[cases%4], data)
			in := fmt.Sprintf("upload of %d bytes from a %s with at most %d parts", size, what, max)
			_, err := up.Upload(&s3util.S3UploadInput{Bucket: aws.String("b"), Key: aws.String("k"), Body: body})
			if err != nil || b.broken != "" {
				vfail(t, "c24:limit", "%s fails: %v %s", in, err, b.broken)
				continue
			}
			if len(b.parts) > max || !vsame(b.objects["/b/k"], data) {
				vfail(t, "c24:limit", "%s uses parts %v", in, b.parts)
			}
		}
	}
	// a stream of unknown length that does not fit is an error, not an object
	b, svc := newBucket()
	up := s3util.NewS3Uploader(svc, func(u *s3util.S3Uploader) {
		u.PartSize = part
		u.MaxUploadParts = 2
	})
	_, err := up.Upload(&s3util.S3UploadInput{Bucket: aws.String("b"), Key: aws.String("k"), Body: &vstream{r: r, data: vblock[:3*part], failAt: -1}})
	if _, ok := b.objects["/b/k"]; err == nil || ok {
		vfail(t, "c24:overflow", "a stream of 3 parts with a limit of 2 gives %v, object present %v", err, ok)
	}
	if b.aborted == 0 {
		vfail(t, "c24:overflow", "a stream that exceeds the limit leaves its upload open")
	}
	vcases("C24.limits", cases+1)
}

func TestVerif_C24_Failures(t *testing.T) {
	r := vrand()
	part := 5 * mib
	cases := 0
	try := func(in string, body io.Reader, set func(b *vbucket)) {
		cases++
		b, svc := newBucket()
		set(b)
		conc := 1 + r.Intn(3)
		up := s3util.NewS3Uploader(svc, func(u *s3util.S3Uploader) {
			u.PartSize = int64(part)
			u.Concurrency = conc
		})
		var err error
		if !vwithin(t, "c24:failure", in, 60*time.Second, func() {
			_, err = up.Upload(&s3util.S3UploadInput{Bucket: aws.String("b"), Key: aws.String("k"), Body: body})
		}) {
			return
		}
		if err == nil {
			vfail(t, "c24:lost", "%s succeeds", in)
		}
		if o, ok := b.objects["/b/k"]; ok {
			vfail(t, "c24:published", "%s publishes an object of %d bytes", in, len(o))
		}
		if len(b.uploads) > 0 && b.aborted == 0 {
			vfail(t, "c24:open", "%s does not abort its upload", in)
		}
	}
	for _, size := range []int{1000, part, part + 1, 3*part + 5} {
		for _, at := range []int{0, 1, part - 1, part, part + 1, 2 * part, size - 1, size} {
			if at > size {
				continue
			}
			try(fmt.Sprintf("upload of a stream of %d bytes that fails after %d", size, at), &vstream{r: r, data: vblock[:size], failAt: at}, func(*vbucket) {})
		}
	}
	for p := 1; p <= 4; p++ {
		p := p
		try(fmt.Sprintf("upload of 4 parts with part %d refused", p), bytes.NewReader(vblock[:3*part+5]), func(b *vbucket) { b.failPart = p })
		try(fmt.Sprintf("upload of a stream of 4 parts with part %d refused", p), &vstream{r: r, data: vblock[:3*part+5], failAt: -1}, func(b *vbucket) { b.failPart = p })
	}
	try("upload of 2 parts that cannot be completed", bytes.NewReader(vblock[:part+5]), func(b *vbucket) { b.failComplete = true })
	try("upload of 2 parts that cannot be started", bytes.NewReader(vblock[:part+5]), func(b *vbucket) { b.failCreate = true })
	try("upload of one part that is refused", bytes.NewReader(vblock[:100]), func(b *vbucket) { b.failPut = true })
	try("upload of a reader that fails", &vhuge{size: 3 * int64(part)}, func(*vbucket) {})
	vcases("C24.failures", cases)
}

// vcounted holds 5 MiB of each byte in turn.
type vcounted struct{ n, size int }

func (s *vcounted) Read(p []byte) (int, error) {
	if s.n >= s.size {
		return 0, io.EOF
	}
	at := s.n % (5 * mib)
	n := 5*mib - at
	if n > len(p) {
		n = len(p)
	}
	if n > s.size-s.n {
		n = s.size - s.n
	}
	for i := range p[:n] {
		p[i] = byte(s.n / (5 * mib))
	}
	s.n += n
	return n, nil
}

// vorder answers like the service, keeps only what is wrong with the parts and
// the order in which they are put together.
type vorder struct {
	mu    sync.Mutex
	wrong string
	order []int
}

func (v *vorder) RoundTrip(req *http.Request) (*http.Response, error) {
	answer := ""
	q := req.URL.Query()
	switch {
	case req.Method == "PUT":
		num, _ := strconv.Atoi(q.Get("partNumber"))
		time.Sleep(time.Duration(5+num%3*10) * time.Millisecond)
		b, err := ioutil.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		if len(b) == 0 || bytes.Count(b, b[:1]) != len(b) || b[0] != byte(num-1) {
			v.mu.Lock()
			v.wrong = fmt.Sprintf("part %d (%d bytes) has the bytes of another", num, len(b))
			v.mu.Unlock()
		}
	case req.Method == "POST":
		if _, ok := q["uploads"]; ok {
			answer = "<InitiateMultipartUploadResult><UploadId>id</UploadId></InitiateMultipartUploadResult>"
			break
		}
		b, err := ioutil.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
		v.mu.Lock()
		v.order = nil
		for _, m := range regexp.MustCompile(`<PartNumber>(\d+)</PartNumber>`).FindAllStringSubmatch(string(b), -1) {
			n, _ := strconv.Atoi(m[1])
			v.order = append(v.order, n)
		}
		v.mu.Unlock()
		answer = "<CompleteMultipartUploadResult><Location>x</Location></CompleteMultipartUploadResult>"
	}
	h := http.Header{}
	h.Set("ETag", "x")
	return &http.Response{StatusCode: 200, Status: "200", Header: h, Body: ioutil.NopCloser(strings.NewReader(answer)), Request: req}, nil
}

// Many parts, sent slowly: each has its own bytes, and all are put together in
// order.
func TestVerif_C24_ManyParts(t *testing.T) {
	const parts = 132
	os.Unsetenv("AWS_CA_BUNDLE")
	v := &vorder{}
	cfg := aws.NewConfig().WithRegion("r").WithEndpoint("http://127.0.0.1:1").WithS3ForcePathStyle(true).WithMaxRetries(0).
		WithCredentials(credentials.NewStaticCredentials("a", "b", "")).WithHTTPClient(&http.Client{Transport: v})
	sess, err := session.NewSession(cfg)
	if err != nil {
		t.Fatal(err)
	}
	up := s3util.NewS3Uploader(s3.New(sess), func(u *s3util.S3Uploader) {
		u.PartSize = 5 * mib
		u.Concurrency = 4
	})
	in := fmt.Sprintf("upload of a stream of %d parts", parts)
	if !vwithin(t, "c24:many", in, 120*time.Second, func() {
		_, err = up.Upload(&s3util.S3UploadInput{Bucket: aws.String("b"), Key: aws.String("k"), Body: &vcounted{size: parts*5*mib - 7}})
	}) {
		return
	}
	if err != nil || v.wrong != "" {
		vfail(t, "c24:many", "%s: %v %s", in, err, v.wrong)
	}
	for i := 0; i < parts; i++ {
		if len(v.order) != parts || v.order[i] != i+1 {
			vfail(t, "c24:order", "%s is put together in the order %v", in, v.order)
			break
		}
	}
	vcases("C24.parts", parts)
}
