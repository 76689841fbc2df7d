// Generated by tools/mkcommon.py: reporting helpers of the executable contracts.
package caching_test

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

var vmu sync.Mutex
var vcount = map[string]int{}

// vfail reports a failing input; at most five per key are printed.
func vfail(t *testing.T, key, format string, args ...interface{}) {
	vmu.Lock()
	defer vmu.Unlock()
	vcount[key]++
	t.Fail()
	if vcount[key] > 5 {
		return
	}
	s := fmt.Sprintf(format, args...)
	s = strings.Map(func(r rune) rune {
		if r == '\n' || r == '\r' {
			return ' '
		}
		return r
	}, s)
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	fmt.Printf("VERIF-FAIL key=%s %s\n", key, s)
}

func vcases(name string, n int) { fmt.Printf("\nVERIF-CASES %s=%d\n", name, n) }

func vseed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func vrand() *rand.Rand { return rand.New(rand.NewSource(vseed())) }

func vthorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// vguard runs f; a panic is reported as a failure on the described input.
func vguard(t *testing.T, key, in string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			vfail(t, key+":panic", "%s panics: %v at %s", in, r, vwhere())
		}
	}()
	f()
	return true
}

func vwhere() string {
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		l = strings.TrimSpace(l)
		if strings.Contains(l, "/pkg/") && !strings.Contains(l, "_verif_test.go") && strings.Contains(l, ".go:") && !strings.Contains(l, "/pkg/mod/") {
			return l
		}
	}
	return ""
}

// vpanics reports whether f panics.
func vpanics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// vwithin runs f and reports a failure when it does not finish in time.
func vwithin(t *testing.T, key, in string, d time.Duration, f func()) bool {
	done := make(chan bool, 1)
	go func() {
		ok := false
		defer func() { done <- ok }()
		ok = vguard(t, key, in, f)
	}()
	select {
	case ok := <-done:
		return ok
	case <-time.After(d):
		vfail(t, key+":hang", "%s does not finish within %s", in, d)
		return false
	}
}

var _ = []interface{}{vfail, vcases, vrand, vthorough, vguard, vpanics, vwithin}
