package httpdriver_test

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"net/http"
	stdurl "net/url"
	"strconv"
	"strings"
	"testing"

	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
)

var errInjected = errors.New("injected failure")

type vcut struct {
	r io.Reader
	e error
}

func (c *vcut) Read(p []byte) (int, error) {
	n, err := c.r.Read(p)
	if err == io.EOF && c.e != nil {
		err = c.e
	}
	return n, err
}

func (c *vcut) Close() error { return nil }

// vserver answers range requests, rightly or not.
type vserver struct {
	data  []byte
	fault int
	x     int64
	reqs  []string
	meth  []string
	paths []string
}

func (v *vserver) RoundTrip(req *http.Request) (*http.Response, error) {
	v.meth = append(v.meth, req.Method)
	v.reqs = append(v.reqs, req.Header.Get("Range"))
	v.paths = append(v.paths, req.URL.String())
	resp := &http.Response{Header: http.Header{}, StatusCode: 200, Request: req, Proto: "HTTP/1.1", ProtoMajor: 1, ProtoMinor: 1}
	if req.Method == "HEAD" {
		resp.ContentLength = int64(len(v.data))
		resp.Body = ioutil.NopCloser(strings.NewReader(""))
		switch v.fault {
		case 20:
			resp.StatusCode = 404
		case 21:
			resp.StatusCode = 500
		case 22:
			resp.ContentLength = -1
		case 23:
			return nil, errInjected
		}
		return resp, nil
	}
	var a, b int64
	if n, _ := fmt.Sscanf(req.Header.Get("Range"), "bytes=%d-%d", &a, &b); n != 2 || a < 0 || a > b || b >= int64(len(v.data)) {
		resp.StatusCode = 416
		resp.Body = ioutil.NopCloser(strings.NewReader(""))
		return resp, nil
	}
	body := append([]byte(nil), v.data[a:b+1]...)
	total := int64(len(v.data))
	cl := b - a + 1
	status := 206
	var cutErr error
	hdr := func(a, b, t int64) string { return fmt.Sprintf("bytes %d-%d/%d", a, b, t) }
	h := hdr(a, b, total)
	switch v.fault {
	case 1:
		status, body, cl, h = 200, v.data, total, ""
	case 2:
		status = []int{204, 301, 403, 404, 416, 500}[v.x%6]
	case 3:
		h = ""
	case 4:
		h = hdr(a+1+v.x%3, b+1+v.x%3, total+10)
	case 5:
		h = hdr(a, b-1, total)
		if b == a {
			h = "bytes x"
		}
	case 6:
		h = hdr(a, b, total) + "junk"
	case 7:
		body = body[:v.x%int64(len(body))]
	case 8:
		body = body[:v.x%int64(len(body))]
		cutErr = errInjected
	case 9:
		return nil, errInjected
	case 10:
		cl = cl + 1 + v.x%5
		body = append(body, 'x', 'y', 'z', 'x', 'y', 'z')
	case 11:
		h = "bytes 0-18446744073709551614/18446744073709551615"
	case 12:
		h = "bytes 9-2/0"
	case 13:
		cl = -1
	case 14:
		h = hdr(a, b, b) // inconsistent with itself
	case 15: // a different range of the same length
		h = hdr(a+1, b+1, total+1)
	case 16: // more than was asked, consistently
		h = hdr(a, b+1, total+1)
		cl++
		body = append(body, 'x')
	case 17: // less than was asked, consistently
		if b == a {
			status = 500
		} else {
			h = hdr(a, b-1, total)
			cl--
			body = body[:len(body)-1]
		}
	case 18: // the object shrank
		h = hdr(a, b, b+1)
		if b+1 == total {
			status = 500
		}
	}
	resp.StatusCode = status
	resp.ContentLength = cl
	if h != "" {
		resp.Header.Set("Content-Range", h)
	}
	if status == 301 {
		resp.Header.Set("Location", "")
	}
	resp.Body = &vcut{bytes.NewReader(body), cutErr}
	return resp, nil
}

func TestVerif_C21_Reads(t *testing.T) {
	r := vrand()
	n := 30000
	if vthorough() {
		n = 400000
	}
	for k := 0; k < n; k++ {
		size := []int{0, 1, 2, 10, 100, 5000}[r.Intn(6)]
		v := &vserver{data: make([]byte, size), x: int64(r.Intn(1000))}
		r.Read(v.data)
		if r.Intn(3) > 0 {
			v.fault = r.Intn(24)
		}
		known := r.Intn(2) == 0
		given := int64(-1)
		if known {
			given = int64(size)
		}
		raw := "http://h/a%20b/c?q=1"
		u, _ := stdurl.Parse(raw)
		o := httpdriver.NewObject(&http.Client{Transport: v}, raw, u, given)
		pn := []int{0, 1, 2, 10, size, size + 1, 200}[r.Intn(7)]
		off := int64(r.Intn(size + 3))
		if r.Intn(10) == 0 {
			off = -1 - int64(r.Intn(5))
		}
		p := bytes.Repeat([]byte{0xAA}, pn)
		in := fmt.Sprintf("ReadAt(%d bytes, %d) of %d bytes (size given %v), server behaviour %d/%d", pn, off, size, known, v.fault, v.x)
		var m int
		var err error
		if !vguard(t, "c21:read", in, func() { m, err = o.ReadAt(p, off) }) {
			continue
		}
		if m < 0 || m > pn {
			vfail(t, "c21:count", "%s returns %d", in, m)
			continue
		}
		end := off + int64(pn)
		if end > int64(size) {
			end = int64(size)
		}
		var gets []string
		for i := range v.meth {
			if v.meth[i] == "GET" {
				gets = append(gets, v.reqs[i])
			}
			if v.paths[i] != raw {
				vfail(t, "c21:url", "%s asks for %q", in, v.paths[i])
			}
		}
		for _, g := range gets {
			if g != fmt.Sprintf("bytes=%d-%d", off, end-1) {
				vfail(t, "c21:request", "%s asks for %q", in, g)
			}
		}
		switch {
		case pn == 0:
			if m != 0 {
				vfail(t, "c21:count", "%s returns %d", in, m)
			}
		case off < 0:
			if err == nil || m != 0 {
				vfail(t, "c21:negative", "%s returns %d, %v", in, m, err)
			}
		case !known && v.fault >= 20:
			if err == nil || m != 0 {
				vfail(t, "c21:stat", "%s returns %d, %v", in, m, err)
			}
		case off >= int64(size):
			if m != 0 || err != io.EOF {
				vfail(t, "c21:eof", "%s returns %d, %v", in, m, err)
			}
		case v.fault == 0 || v.fault > 18:
			if err != nil && err != io.EOF || int64(m) != end-off || !bytes.Equal(p[:m], v.data[off:end]) {
				vfail(t, "c21:data", "%s returns %d, %v", in, m, err)
			}
		default:
			if err == nil || err == io.EOF {
				vfail(t, "c21:fault", "%s returns %d, %v", in, m, err)
			}
			if m > 0 && !bytes.Equal(p[:m], v.data[off:off+int64(m)]) {
				vfail(t, "c21:fault-data", "%s returns %d wrong bytes", in, m)
			}
		}
		for i := m; i < pn && m < pn && err == nil; i++ {
			if int64(i) < end-off {
				break
			}
			if p[i] != 0xAA {
				vfail(t, "c21:beyond", "%s changes byte %d of the buffer", in, i)
				break
			}
		}
	}
	vcases("C21.reads", n)
	// a whole object read in order
	for k := 0; k < 200; k++ {
		v := &vserver{data: make([]byte, r.Intn(3000))}
		r.Read(v.data)
		u, _ := stdurl.Parse("http://h/x")
		o := httpdriver.NewObject(&http.Client{Transport: v}, "http://h/x", u, -1)
		got, err := ioutil.ReadAll(o)
		if err != nil || !bytes.Equal(got, v.data) || o.Size() != int64(len(v.data)) {
			vfail(t, "c21:all", "reading an object of %d bytes gives %d bytes, %v, size %d", len(v.data), len(got), err, o.Size())
		}
	}
}

var _ = strconv.Itoa
