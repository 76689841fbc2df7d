package httputil_test

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	stdurl "net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/httputil"
)

var errInjected = errors.New("injected failure")

type vanswer struct {
	status int
	err    error
}

type vbase struct {
	script []vanswer
	resps  []*http.Response
	reqs   []*http.Request
	hdrs   []http.Header
	bodies [][]byte
}

func (v *vbase) RoundTrip(req *http.Request) (*http.Response, error) {
	i := len(v.reqs)
	v.reqs = append(v.reqs, req)
	v.hdrs = append(v.hdrs, req.Header.Clone())
	var b []byte
	if req.Body != nil {
		b, _ = ioutil.ReadAll(req.Body)
		req.Body.Close()
	}
	v.bodies = append(v.bodies, b)
	a := v.script[len(v.script)-1]
	if i < len(v.script) {
		a = v.script[i]
	}
	if a.err != nil {
		v.resps = append(v.resps, nil)
		return nil, a.err
	}
	resp := &http.Response{StatusCode: a.status, Header: http.Header{"X-N": {fmt.Sprint(i)}}, Body: ioutil.NopCloser(strings.NewReader(fmt.Sprintf("answer %d", i)))}
	v.resps = append(v.resps, resp)
	return resp, nil
}

func TestVerif_C22_Authorization(t *testing.T) {
	cases := []http.Header{
		{}, {"Authorization": {"mine"}}, {"Authorization": {"one", "two"}}, {"Authorization": {""}}, {"X-Other": {"1"}}, {"Authorization": {"a"}, "X-Other": {"1"}},
	}
	n := 0
	for _, h := range cases {
		for _, val := range []string{"Bearer x", ""} {
			v := &vbase{script: []vanswer{{status: 200}}}
			rt := httputil.WithAuthz(v, val)
			u, _ := stdurl.Parse("http://h/p")
			for k := 0; k < 3; k++ {
				req := &http.Request{Method: "GET", URL: u, Header: h.Clone()}
				in := fmt.Sprintf("header %v, value %q", h, val)
				vguard(t, "c22:auth", in, func() {
					resp, err := rt.RoundTrip(req)
					if err != nil || resp != v.resps[len(v.resps)-1] {
						vfail(t, "c22:auth-answer", "%s: the answer is changed: %v", in, err)
					}
				})
				want := h.Clone()
				if _, ok := want["Authorization"]; !ok {
					want["Authorization"] = []string{val}
				}
				if fmt.Sprint(v.hdrs[len(v.hdrs)-1]) != fmt.Sprint(want) {
					vfail(t, "c22:auth", "%s: sent with %v, want %v", in, v.hdrs[len(v.hdrs)-1], want)
				}
				n++
			}
		}
	}
	vcases("C22.authorization", n)
}

func TestVerif_C22_Retries(t *testing.T) {
	r := vrand()
	n := 400
	if vthorough() {
		n = 4000
	}
	statuses := []int{100, 200, 206, 301, 304, 400, 401, 404, 416, 428, 429, 430, 451, 499, 500, 501, 503, 504, 599, 600}
	var wg sync.WaitGroup
	var mu sync.Mutex
	_ = mu
	sem := make(chan bool, 16)
	for k := 0; k < n; k++ {
		v := &vbase{}
		m := 1 + r.Intn(4)
		for i := 0; i < m; i++ {
			a := vanswer{status: statuses[r.Intn(len(statuses))]}
			if i < m-1 && r.Intn(2) == 0 {
				a.status = []int{429, 500, 503}[r.Intn(3)]
			}
			if r.Intn(4) == 0 {
				a.err = errInjected
			}
			v.script = append(v.script, a)
		}
		if k < len(statuses) {
			v.script = []vanswer{{status: statuses[k]}, {status: 200}}
		}
		retry := func(a vanswer) bool { return a.err != nil || a.status >= 500 || a.status == 429 }
		want := 1
		for want < len(v.script) && retry(v.script[want-1]) {
			want++
		}
		endless := retry(v.script[len(v.script)-1]) && want == len(v.script)
		var body []byte
		method := "GET"
		if r.Intn(2) == 0 {
			body = bytes.Repeat([]byte("b"), r.Intn(2000))
			method = "PUT"
		}
		u, _ := stdurl.Parse("http://h/p?q")
		req := &http.Request{Method: method, URL: u, Header: http.Header{"X-A": {"1"}}}
		if body != nil {
			req.Body = ioutil.NopCloser(bytes.NewReader(body))
			req.ContentLength = int64(len(body))
		}
		opts := httputil.RetryOptions{InitialInterval: time.Millisecond, MaxInterval: time.Millisecond, MaxElapsedTime: 60 * time.Second}
		if endless {
			opts.MaxElapsedTime = 20 * time.Millisecond
		}
		in := fmt.Sprintf("%s with %d bytes, answers %v", method, len(body), v.script)
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			var resp *http.Response
			var err error
			if !vwithin(t, "c22:retry", in, 60*time.Second, func() { resp, err = httputil.WithRetries(v, opts).RoundTrip(req) }) {
				return
			}
			got := len(v.reqs)
			if !endless && got != want {
				vfail(t, "c22:attempts", "%s is sent %d times, want %d", in, got, want)
				return
			}
			last := v.script[len(v.script)-1]
			if got <= len(v.script) {
				last = v.script[got-1]
			}
			if last.err != err || resp != v.resps[got-1] {
				vfail(t, "c22:last", "%s: after %d attempts the caller gets %v, %v", in, got, resp, err)
			} else if resp != nil {
				b, e := ioutil.ReadAll(resp.Body)
				if e != nil || string(b) != fmt.Sprintf("answer %d", got-1) || resp.StatusCode != last.status {
					vfail(t, "c22:answer", "%s: the last answer reads %q, %v", in, b, e)
				}
			}
			for i := range v.reqs {
				if !bytes.Equal(v.bodies[i], body) || v.reqs[i].Method != method || v.reqs[i].URL.String() != "http://h/p?q" || fmt.Sprint(v.hdrs[i]) != "map[X-A:[1]]" {
					vfail(t, "c22:request", "%s: attempt %d has %d bytes of body, %s %s %v", in, i+1, len(v.bodies[i]), v.reqs[i].Method, v.reqs[i].URL, v.hdrs[i])
					break
				}
			}
		}()
	}
	wg.Wait()
	vcases("C22.retries", n)
}

// vnet counts the addresses dialed and answers every request.
type vnet struct {
	mu    sync.Mutex
	dials []string
}

func (v *vnet) dial(ctx context.Context, network, addr string) (net.Conn, error) {
	v.mu.Lock()
	v.dials = append(v.dials, addr)
	v.mu.Unlock()
	c, s := net.Pipe()
	go func() {
		buf := make([]byte, 65536)
		s.Read(buf)
		s.Write([]byte("HTTP/1.1 200 OK\r\nContent-Length: 2\r\nConnection: close\r\n\r\nok"))
		s.Close()
	}()
	return c, nil
}

func vaddrs(r *rand.Rand, n int) []string {
	var a []string
	for i := 0; i < n; i++ {
		if r.Intn(3) == 0 {
			a = append(a, fmt.Sprintf("fd00::%x", i+1))
		} else {
			a = append(a, fmt.Sprintf("10.0.0.%d", i+1))
		}
	}
	return a
}

func TestVerif_C22_RoundRobin(t *testing.T) {
	r := vrand()
	rounds := 150
	if vthorough() {
		rounds = 1500
	}
	for k := 0; k < rounds; k++ {
		v := &vnet{}
		hosts := map[string][]string{}
		var names []string
		for i := 0; i < 1+r.Intn(5); i++ {
			h := fmt.Sprintf("h%d.invalid", i)
			names = append(names, h)
			hosts[h] = vaddrs(r, r.Intn(5))
		}
		max := r.Intn(4)
		in := fmt.Sprintf("hosts %v, at most %d kept", hosts, max)
		rt := httputil.NewRoundRobinTransport(httputil.RoundRobinTransportConfig{
			MaxHosts: max,
			Dial:     v.dial,
			LookupHost: func(h string) ([]string, error) {
				a, ok := hosts[h]
				if !ok {
					return nil, errInjected
				}
				return append([]string(nil), a...), nil
			},
		})
		used := map[string][]string{}
		evicted := max > 0 && len(names) > max
		vwithin(t, "c22:rr", in, 60*time.Second, func() {
			for i := 0; i < 30; i++ {
				h := names[r.Intn(len(names))]
				port := ""
				want := ":80"
				if r.Intn(2) == 0 {
					port, want = ":8123", ":8123"
				}
				before := len(v.dials)
				u, _ := stdurl.Parse("http://" + h + port + "/x")
				resp, err := rt.RoundTrip(&http.Request{Method: "GET", URL: u, Header: http.Header{}, Host: u.Host})
				if len(hosts[h]) == 0 {
					if err == nil {
						vfail(t, "c22:noaddr", "%s: a request to %s without addresses succeeds", in, h)
					}
					continue
				}
				if err != nil {
					vfail(t, "c22:send", "%s: a request to %s fails: %v", in, h, err)
					continue
				}
				b, err := ioutil.ReadAll(resp.Body)
				if err != nil || string(b) != "ok" {
					vfail(t, "c22:rr-answer", "%s: the answer reads %q, %v", in, b, err)
				}
				resp.Body.Close()
				v.mu.Lock()
				d := append([]string(nil), v.dials[before:]...)
				v.mu.Unlock()
				if len(d) == 0 {
					vfail(t, "c22:dial", "%s: a request to %s is not dialed", in, h)
					continue
				}
				addr := d[0]
				ok := false
				for _, a := range hosts[h] {
					if addr == net.JoinHostPort(a, want[1:]) {
						ok = true
						used[h] = append(used[h], a)
					}
				}
				if !ok {
					vfail(t, "c22:address", "%s: a request to %s%s goes to %q", in, h, port, addr)
				}
			}
		})
		if evicted {
			continue
		}
		for h, u := range used {
			n := len(hosts[h])
			for i := 0; i+n <= len(u); i++ {
				w := append([]string(nil), u[i:i+n]...)
				sort.Strings(w)
				want := append([]string(nil), hosts[h]...)
				sort.Strings(want)
				if fmt.Sprint(w) != fmt.Sprint(want) {
					vfail(t, "c22:even", "%s: requests to %s go to %v", in, h, u)
					break
				}
			}
		}
	}
	vcases("C22.roundrobin", rounds)
}
