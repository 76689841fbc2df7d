package s3util_test

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net/http"
	stdurl "net/url"
	"strings"
	"testing"

	"github.com/aws/aws-sdk-go/aws/credentials"

	"github.com/NVIDIA/vdisc/pkg/s3util"
)

// vcapture keeps what reaches the transport.
type vcapture struct {
	n      int
	header http.Header
	url    stdurl.URL
	raw    string
	body   []byte
	ptr    *http.Request
	err    error
}

func (v *vcapture) RoundTrip(req *http.Request) (*http.Response, error) {
	v.n++
	v.ptr = req
	v.header = http.Header{}
	for k, h := range req.Header {
		v.header[k] = append([]string(nil), h...)
	}
	v.url = *req.URL
	v.raw = req.URL.RawPath
	v.body = nil
	if req.Body != nil {
		v.body, _ = ioutil.ReadAll(req.Body)
	}
	if v.err != nil {
		return nil, v.err
	}
	return &http.Response{StatusCode: 200, Body: ioutil.NopCloser(strings.NewReader("ok"))}, nil
}

type vnocreds struct{}

func (vnocreds) Retrieve() (credentials.Value, error) { return credentials.Value{}, errInjected }
func (vnocreds) IsExpired() bool                      { return true }

func unreserved(c byte) bool {
	return 'a' <= c && c <= 'z' || 'A' <= c && c <= 'Z' || '0' <= c && c <= '9' || strings.IndexByte("-_.~", c) >= 0
}

// decode undoes percent encoding by hand.
func decode(s string) (string, error) {
	var out []byte
	hex := "0123456789ABCDEF"
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s) {
				return "", fmt.Errorf("cut short at %d", i)
			}
			h, l := strings.IndexByte(hex, s[i+1]), strings.IndexByte(hex, s[i+2])
			if h < 0 || l < 0 {
				return "", fmt.Errorf("bad escape %q", s[i:i+3])
			}
			c := byte(h<<4 | l)
			if unreserved(c) || c == '/' {
				return "", fmt.Errorf("escapes %q", c)
			}
			out = append(out, c)
			i += 2
		case unreserved(s[i]) || s[i] == '/':
			out = append(out, s[i])
		default:
			return "", fmt.Errorf("plain %q", s[i])
		}
	}
	return string(out), nil
}

func vpath(r *rand.Rand, n int) string {
	b := []byte{'/'}
	for i := 0; i < n; i++ {
		switch r.Intn(5) {
		case 0:
			b = append(b, byte(r.Intn(256)))
		case 1:
			b = append(b, " $&+,/:;=?@%\"<>#|[]{}^`'()*!\\"[r.Intn(29)])
		case 2:
			b = append(b, '/')
		default:
			b = append(b, "abcXYZ019-_.~"[r.Intn(13)])
		}
	}
	return string(b)
}

func TestVerif_C25_Paths(t *testing.T) {
	r := vrand()
	n := 20000
	if vthorough() {
		n = 400000
	}
	c := &vcapture{}
	s := s3util.NewSigningRoundTripper(c, credentials.NewStaticCredentials("id", "secret", ""), "us-east-1")
	check := func(path string) {
		req := &http.Request{Method: "GET", URL: &stdurl.URL{Scheme: "https", Host: "b.s3.invalid", Path: path}, Header: http.Header{}}
		var err error
		if !vguard(t, "c25:path", fmt.Sprintf("path %q", path), func() { _, err = s.RoundTrip(req) }) {
			return
		}
		if err != nil {
			vfail(t, "c25:path", "signing %q fails: %v", path, err)
			return
		}
		got, err := decode(c.raw)
		if err != nil || got != path {
			vfail(t, "c25:path", "path %q is sent as %q (%v)", path, c.raw, err)
			return
		}
		if c.url.EscapedPath() != c.raw && path != "*" {
			vfail(t, "c25:path-used", "path %q encoded as %q goes out as %q", path, c.raw, c.url.EscapedPath())
		}
	}
	for i := 0; i < 256; i++ {
		check("/" + string([]byte{byte(i)}))
		check("/" + strings.Repeat(string([]byte{byte(i)}), 30))
	}
	for k := 0; k < n; k++ {
		m := r.Intn(20)
		if k%10 == 0 {
			m = 10 + r.Intn(100)
		}
		check(vpath(r, m))
	}
	vcases("C25.paths", n+512)
}

func TestVerif_C25_Signing(t *testing.T) {
	r := vrand()
	n := 2000
	for k := 0; k < n; k++ {
		c := &vcapture{}
		if k%7 == 0 {
			c.err = errInjected
		}
		creds := credentials.NewStaticCredentials("id", "secret", "")
		bad := k%3 == 0
		if bad {
			creds = credentials.NewCredentials(vnocreds{})
		}
		s := s3util.NewSigningRoundTripper(c, creds, "us-east-1")
		path := vpath(r, r.Intn(10))
		u := &stdurl.URL{Scheme: "https", Host: "b.s3.invalid", Path: path, RawQuery: "a=b"}
		req := &http.Request{Method: "GET", URL: u, Header: http.Header{"X-Thing": {"1"}}}
		var body []byte
		if r.Intn(2) == 0 {
			body = vblock[:r.Intn(3000)]
			req.Method = "PUT"
			req.Body = ioutil.NopCloser(bytes.NewReader(body))
			req.ContentLength = int64(len(body))
		}
		signed := r.Intn(3) == 0
		other := !signed && r.Intn(3) == 0
		if signed {
			req.Header["Authorization"] = []string{"AWS4-HMAC-SHA256 Credential=x"}
			u.Scheme = "http"
			u.RawPath = "/kept"
		}
		if other {
			req.Header["Authorization"] = []string{"Basic abc"}
		}
		in := fmt.Sprintf("%s %q (signed %v, body %d, usable credentials %v)", req.Method, path, signed, len(body), !bad)
		before := req.Header.Clone()
		wantURL := *u
		var resp *http.Response
		var err error
		if !vguard(t, "c25:sign", in, func() { resp, err = s.RoundTrip(req) }) {
			continue
		}
		if signed {
			if c.n != 1 || c.ptr != req || c.url != wantURL || fmt.Sprint(c.header) != fmt.Sprint(before) || !bytes.Equal(c.body, body) {
				vfail(t, "c25:signed", "%s is changed: %v %v, sent %d times", in, c.url, c.header, c.n)
			}
		} else if bad {
			if err == nil || c.n != 0 {
				vfail(t, "c25:unsigned", "%s is sent %d times without a signature (%v)", in, c.n, err)
			}
			continue
		} else {
			if c.n != 1 || !strings.HasPrefix(c.header.Get("Authorization"), "AWS4") {
				vfail(t, "c25:sign", "%s is sent %d times with authorization %q", in, c.n, c.header.Get("Authorization"))
			}
			if !bytes.Equal(c.body, body) {
				vfail(t, "c25:body", "%s is sent with %d of %d bytes", in, len(c.body), len(body))
			}
			if c.header.Get("X-Thing") != "1" || c.url.RawQuery != "a=b" || c.url.Host != wantURL.Host || c.url.Path != path {
				vfail(t, "c25:changed", "%s goes to %v with %v", in, c.url, c.header)
			}
		}
		if c.err != nil && err == nil || c.err == nil && (err != nil || resp == nil || resp.StatusCode != 200) {
			vfail(t, "c25:answer", "%s: the transport gives %v, the caller gets %v", in, c.err, err)
		}
	}
	vcases("C25.requests", n)
}
