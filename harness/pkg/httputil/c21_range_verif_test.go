package httputil_test

import (
	"fmt"
	"math/big"
	"net/http"
	"regexp"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/httputil"
)

var wellFormed = regexp.MustCompile(`\Abytes ([0-9]+)-([0-9]+)/([0-9]+)\z`)

func TestVerif_C21_Header(t *testing.T) {
	r := vrand()
	n := 30000
	if vthorough() {
		n = 1000000
	}
	num := func() string {
		switch r.Intn(8) {
		case 0:
			return "18446744073709551615"
		case 1:
			return "18446744073709551614"
		case 2:
			return "18446744073709551616"
		case 3:
			return fmt.Sprint(uint64(1)<<63 + uint64(r.Intn(3)) - 1)
		case 4:
			return fmt.Sprintf("00%d", r.Intn(4))
		}
		return fmt.Sprint(r.Intn(6))
	}
	for k := 0; k < n; k++ {
		h := "bytes " + num() + "-" + num() + "/" + num()
		switch r.Intn(20) {
		case 0:
			h = h[:r.Intn(len(h))]
		case 1:
			i := r.Intn(len(h))
			h = h[:i] + string(" -/*x\n9+"[r.Intn(8)]) + h[i:]
		case 2:
			h = h + string(" ,\n;1"[r.Intn(5)])
		case 3:
			h = "bytes */5"
		case 4:
			h = "bytes 0-1/*"
		}
		resp := &http.Response{Header: http.Header{}}
		if h != "" {
			resp.Header["Content-Range"] = []string{h}
		}
		var cr *httputil.ContentRange
		var err error
		if !vguard(t, "c21:header", fmt.Sprintf("header %q", h), func() { cr, err = httputil.GetContentRange(resp) }) {
			continue
		}
		ok := false
		var first, last, total *big.Int
		if m := wellFormed.FindStringSubmatch(h); m != nil {
			first, _ = new(big.Int).SetString(m[1], 10)
			last, _ = new(big.Int).SetString(m[2], 10)
			total, _ = new(big.Int).SetString(m[3], 10)
			ok = first.Cmp(last) <= 0 && last.Cmp(total) < 0 && total.IsUint64()
		}
		if ok != (err == nil) {
			vfail(t, "c21:header", "header %q accepted %v, consistent %v", h, err == nil, ok)
			continue
		}
		if !ok {
			continue
		}
		length := new(big.Int).Sub(last, first)
		length.Add(length, big.NewInt(1))
		if cr.First != first.Uint64() || cr.Last != last.Uint64() || cr.Total != total.Uint64() || cr.Len() != length.Uint64() {
			vfail(t, "c21:header-value", "header %q gives %+v of length %d", h, *cr, cr.Len())
		}
		if cr.Terminal() != (new(big.Int).Sub(total, last).Cmp(big.NewInt(1)) == 0) {
			vfail(t, "c21:terminal", "header %q terminal %v", h, cr.Terminal())
		}
	}
	if _, err := httputil.GetContentRange(&http.Response{Header: http.Header{}}); err == nil {
		vfail(t, "c21:missing", "a missing header is accepted")
	}
	vcases("C21.headers", n)
}
