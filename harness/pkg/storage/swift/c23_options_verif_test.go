package swiftdriver_test

import (
	"context"
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/aws/aws-sdk-go/aws/credentials"

	httpdriver "github.com/NVIDIA/vdisc/pkg/storage/http"
	s3driver "github.com/NVIDIA/vdisc/pkg/storage/s3"
	swiftdriver "github.com/NVIDIA/vdisc/pkg/storage/swift"
)

// voption sets one option to its n-th value and reads it back as text.
type voption struct {
	name string
	set  func(ctx context.Context, n int) context.Context
	get  func(ctx context.Context) (string, bool)
	text func(n int) string
}

func TestVerif_C23_Options(t *testing.T) {
	s3creds := []*credentials.Credentials{credentials.NewStaticCredentials("a", "b", "c"), credentials.NewStaticCredentials("d", "e", "f")}
	swcreds := []*swiftdriver.SwiftCreds{{}, {}}
	dur := func(n int) time.Duration { return time.Duration(n+1) * time.Second }
	durText := func(n int) string { return dur(n).String() }
	durGet := func(f func(context.Context) (*time.Duration, bool)) func(context.Context) (string, bool) {
		return func(ctx context.Context) (string, bool) {
			d, ok := f(ctx)
			if !ok {
				return "", false
			}
			return d.String(), true
		}
	}
	opts := []voption{
		{"http authorization", func(c context.Context, n int) context.Context {
			return httpdriver.CtxWithAuthz(c, fmt.Sprint("auth", n))
		}, func(c context.Context) (string, bool) {
			s, ok := httpdriver.AuthzFromCtx(c)
			if !ok {
				return "", false
			}
			return *s, true
		}, func(n int) string { return fmt.Sprint("auth", n) }},
		{"http timeout", func(c context.Context, n int) context.Context { return httpdriver.CtxWithTimeout(c, dur(n)) }, durGet(httpdriver.TimeoutFromCtx), durText},
		{"s3 timeout", func(c context.Context, n int) context.Context { return s3driver.CtxWithTimeout(c, dur(n+10)) }, durGet(s3driver.TimeoutFromCtx), func(n int) string { return dur(n + 10).String() }},
		{"s3 credentials", func(c context.Context, n int) context.Context { return s3driver.CtxWithCredentials(c, s3creds[n]) }, func(c context.Context) (string, bool) {
			v, ok := s3driver.CredentialsFromCtx(c)
			return fmt.Sprintf("%p", v), ok
		}, func(n int) string { return fmt.Sprintf("%p", s3creds[n]) }},
		{"swift timeout", func(c context.Context, n int) context.Context { return swiftdriver.CtxWithTimeout(c, dur(n+20)) }, durGet(swiftdriver.TimeoutFromCtx), func(n int) string { return dur(n + 20).String() }},
		{"swift region", func(c context.Context, n int) context.Context {
			return swiftdriver.CtxWithRegion(c, fmt.Sprint("region", n))
		}, swiftdriver.RegionFromCtx, func(n int) string { return fmt.Sprint("region", n) }},
		{"swift credentials", func(c context.Context, n int) context.Context { return swiftdriver.CtxWithCredentials(c, swcreds[n]) }, func(c context.Context) (string, bool) {
			v, ok := swiftdriver.CredentialsFromCtx(c)
			return fmt.Sprintf("%p", v), ok
		}, func(n int) string { return fmt.Sprintf("%p", swcreds[n]) }},
	}
	n := 0
	var try func(ctx context.Context, set []int, hist []string, depth int)
	try = func(ctx context.Context, set []int, hist []string, depth int) {
		n++
		for i, o := range opts {
			var got string
			var ok bool
			in := "after setting " + strings.Join(hist, ", ")
			if !vguard(t, "c23:option", in, func() { got, ok = o.get(ctx) }) {
				continue
			}
			if set[i] == 0 && ok {
				vfail(t, "c23:unset", "%s the %s is reported as %q though it was never set", in, o.name, got)
			}
			if set[i] > 0 && (!ok || got != o.text(set[i]-1)) {
				vfail(t, "c23:option", "%s the %s is %q %v, want %q", in, o.name, got, ok, o.text(set[i]-1))
			}
		}
		if depth == 0 {
			return
		}
		for i, o := range opts {
			for v := 0; v < 2; v++ {
				s := append([]int(nil), set...)
				s[i] = v + 1
				try(o.set(ctx, v), s, append(hist[:len(hist):len(hist)], fmt.Sprintf("%s to %s", o.name, o.text(v))), depth-1)
			}
		}
	}
	depth := 3
	if vthorough() {
		depth = 5
	}
	try(context.Background(), make([]int, len(opts)), nil, depth)
	// all options in random orders
	r := vrand()
	for k := 0; k < 500; k++ {
		ctx := context.Background()
		set := make([]int, len(opts))
		var hist []string
		for i := 0; i < 12; i++ {
			j, v := r.Intn(len(opts)), r.Intn(2)
			ctx = opts[j].set(ctx, v)
			set[j] = v + 1
			hist = append(hist, opts[j].name)
			try(ctx, set, hist, 0)
		}
	}
	vcases("C23.contexts", n)
}
