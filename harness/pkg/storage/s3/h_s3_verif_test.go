package s3driver_test

import (
	"bytes"
	"encoding/xml"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net/http"
	"os"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/aws/aws-sdk-go/aws"
	"github.com/aws/aws-sdk-go/aws/credentials"
	"github.com/aws/aws-sdk-go/aws/session"
	"github.com/aws/aws-sdk-go/service/s3"
)

var errInjected = errors.New("injected failure")

// vbucket is an object store behind an http transport; no network is used.
type vbucket struct {
	mu      sync.Mutex
	objects map[string][]byte
	uploads map[string]map[int][]byte
	aborted int
	puts    int
	dups    int
	parts   []int // sizes of the parts of the last completed upload
	broken  string
	slow    time.Duration
	// failPart: requests for this part number are refused
	failPart     int
	failPut      bool
	failCreate   bool
	failComplete bool
}

func (b *vbucket) RoundTrip(req *http.Request) (*http.Response, error) {
	var body []byte
	var err error
	if req.Body != nil {
		body, err = ioutil.ReadAll(req.Body)
		if err != nil {
			return nil, err
		}
	}
	if b.slow > 0 {
		time.Sleep(b.slow)
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	q := req.URL.Query()
	answer := func(code int, s string) (*http.Response, error) {
		h := http.Header{}
		h.Set("ETag", fmt.Sprintf("\"%d\"", len(body)))
		return &http.Response{StatusCode: code, Status: strconv.Itoa(code), Header: h, Body: ioutil.NopCloser(strings.NewReader(s)), ContentLength: int64(len(s)), Request: req}, nil
	}
	refuse := func() (*http.Response, error) {
		return answer(403, "<Error><Code>AccessDenied</Code><Message>refused</Message></Error>")
	}
	_, create := q["uploads"]
	id := q.Get("uploadId")
	switch {
	case req.Method == "POST" && create:
		if b.failCreate {
			return refuse()
		}
		id = fmt.Sprintf("id%d", len(b.uploads))
		b.uploads[id] = map[int][]byte{}
		return answer(200, "<InitiateMultipartUploadResult><UploadId>"+id+"</UploadId></InitiateMultipartUploadResult>")
	case req.Method == "PUT" && id != "":
		n, _ := strconv.Atoi(q.Get("partNumber"))
		if n == b.failPart {
			return refuse()
		}
		if b.uploads[id] == nil {
			b.broken = "part sent to an unknown upload"
			return refuse()
		}
		if _, dup := b.uploads[id][n]; dup {
			b.dups++
		}
		b.uploads[id][n] = body
		return answer(200, "")
	case req.Method == "PUT":
		if b.failPut {
			return refuse()
		}
		b.puts++
		b.parts = []int{len(body)}
		b.objects[req.URL.Path] = body
		return answer(200, "")
	case req.Method == "POST" && id != "":
		if b.failComplete {
			return refuse()
		}
		var c struct {
			XMLName xml.Name `xml:"CompleteMultipartUpload"`
			Part    []struct{ PartNumber int }
		}
		if err := xml.Unmarshal(body, &c); err != nil {
			b.broken = err.Error()
			return refuse()
		}
		var all []byte
		b.parts = nil
		last := 0
		for _, p := range c.Part {
			d, ok := b.uploads[id][p.PartNumber]
			if !ok || p.PartNumber <= last {
				b.broken = fmt.Sprintf("completed with part %d after %d (present %v)", p.PartNumber, last, ok)
				return refuse()
			}
			last = p.PartNumber
			all = append(all, d...)
			b.parts = append(b.parts, len(d))
		}
		if len(c.Part) != len(b.uploads[id]) {
			b.broken = "a part that was sent is not in the object"
		}
		b.objects[req.URL.Path] = all
		return answer(200, "<CompleteMultipartUploadResult><Location>x</Location></CompleteMultipartUploadResult>")
	case req.Method == "DELETE" && id != "":
		b.aborted++
		return answer(204, "")
	}
	b.broken = "unexpected request " + req.Method + " " + req.URL.String()
	return refuse()
}

func newBucket() (*vbucket, *s3.S3) {
	os.Unsetenv("AWS_CA_BUNDLE")
	b := &vbucket{objects: map[string][]byte{}, uploads: map[string]map[int][]byte{}}
	cfg := aws.NewConfig().
		WithRegion("us-east-1").
		WithEndpoint("http://store.invalid").
		WithS3ForcePathStyle(true).
		WithMaxRetries(0).
		WithS3DisableContentMD5Validation(true).
		WithCredentials(credentials.NewStaticCredentials("id", "secret", "")).
		WithHTTPClient(&http.Client{Transport: b})
	return b, s3.New(session.Must(session.NewSession(cfg)))
}

// vstream hides everything but Read, gives odd amounts and may fail.
type vstream struct {
	r      *rand.Rand
	data   []byte
	pos    int
	failAt int // negative: never
	eofNow bool
}

func (v *vstream) Read(p []byte) (int, error) {
	if v.failAt >= 0 && v.pos >= v.failAt {
		return 0, errInjected
	}
	if v.pos >= len(v.data) {
		return 0, io.EOF
	}
	n := len(p)
	if v.r.Intn(3) == 0 {
		n = 1 + v.r.Intn(n)
	}
	if n > len(v.data)-v.pos {
		n = len(v.data) - v.pos
	}
	if v.failAt >= 0 && n > v.failAt-v.pos {
		n = v.failAt - v.pos
	}
	copy(p, v.data[v.pos:v.pos+n])
	v.pos += n
	if v.pos == len(v.data) && v.eofNow {
		return n, io.EOF
	}
	return n, nil
}

// vseeker can seek but has no positioned read.
type vseeker struct{ io.ReadSeeker }

var vblock = func() []byte {
	b := make([]byte, 40<<20)
	rand.New(rand.NewSource(7)).Read(b)
	return b
}()

func vsame(a, b []byte) bool { return bytes.Equal(a, b) }
