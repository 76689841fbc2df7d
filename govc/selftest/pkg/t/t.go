// Functions with correct (Ok…) and deliberately wrong (Bad…) bodies, to test
// the condition generator: every Ok must be proved and every Bad must fail.
package t

import (
	"errors"
	"io"
)

var errBig = errors.New("too big")

// overflow of machine integers
func OkAdd(a, b int32) int64  { return int64(a) + int64(b) }
func BadAdd(a, b int32) int64 { return int64(a + b) }

// narrowing
func OkNarrow(n int64) (uint32, error) {
	if n < 0 || n > 4294967295 {
		return 0, errBig
	}
	return uint32(n), nil
}
func BadNarrow(n int64) (uint32, error) {
	if n < 0 || n > 4294967296 {
		return 0, errBig
	}
	return uint32(n), nil
}

// loops
func OkSum(xs []uint8) (s int) {
	for _, x := range xs {
		s += int(x)
	}
	return
}
func BadSum(xs []uint8) (s int) {
	for i := 0; i+1 < len(xs); i++ {
		s += int(xs[i])
	}
	return
}

// index in range
func OkLast(xs []int) int {
	if len(xs) == 0 {
		return 0
	}
	return xs[len(xs)-1]
}
func BadLast(xs []int) int { return xs[len(xs)-1] }

// frames
type Pair struct{ A, B int }

func OkSetA(p *Pair, v int)  { p.A = v }
func BadSetA(p *Pair, v int) { p.A = v; p.B = 0 }

// aliasing
func BadAlias(p, q *Pair) int {
	p.A = 1
	q.A = 2
	return p.A
}
func OkAlias(p, q *Pair) int {
	p.A = 1
	q.A = 2
	return q.A
}

// A slice that is well formed only on the path that made it, kept in memory
// and read back: the other path must not become impossible.
type Box struct{ S []byte }

func BadStored(b *Box, xs []byte, n int) int {
	if n >= 0 && n <= len(xs) {
		b.S = xs[:n]
		return len(b.S)
	}
	return -2
}
func OkStored(b *Box, xs []byte, n int) int {
	if n >= 0 && n <= len(xs) {
		b.S = xs[:n]
		return len(b.S)
	}
	return -1
}

// The same with append to an empty slice, which fits only if nothing is added.
func BadAppended(b *Box, xs []byte) int {
	b.S = append([]byte(nil), xs...)
	if len(b.S) > 0 {
		return 7
	}
	return 0
}
func OkAppended(b *Box, xs []byte) int {
	b.S = append([]byte(nil), xs...)
	if len(b.S) > 0 {
		return 1
	}
	return 0
}

// errors ignored
func OkWrite(w io.Writer, p []byte) error {
	_, err := w.Write(p)
	return err
}
func BadWrite(w io.Writer, p []byte) error {
	w.Write(p)
	return nil
}

// maps
func OkPut(m map[string]int, k string) { m[k] = 3 }
func BadPut(m map[string]int, k string) {
	m["x"] = 0
	m[k] = 3
}

// a caller is checked against the callee's contract
func callee(n int) int { return n / 2 }
func OkCaller(n int) int {
	if n < 0 {
		return 0
	}
	return callee(n)
}
func BadCaller(n int) int { return callee(n) }

// two slices of one array
func BadShare(xs []byte) byte {
	a, b := xs[:2], xs[1:3]
	a[1] = 5
	b[0] = 6
	return a[1]
}
func OkShare(xs []byte) byte {
	a, b := xs[:2], xs[1:3]
	b[0] = 6
	a[1] = 5
	return b[0]
}

// append may write into the array it was given
func BadInPlace(xs []byte) byte {
	ys := append(xs[:1], 9)
	_ = ys
	return xs[1]
}
func OkInPlace(xs []byte) byte {
	ys := append(xs[:1:1], 9)
	_ = ys
	return xs[1]
}

// deferred calls run after the result is set
func OkDefer(p *Pair) (r int) {
	defer func() { p.B = 0 }()
	p.B = 4
	return p.B
}
func BadDefer(p *Pair) (r int) {
	defer func() { r = p.A }()
	return 4
}

// a closure shares its variables
func BadClosure(n int) int {
	x := n
	f := func() { x++ }
	f()
	return x
}
func OkClosure(n int) int {
	x := n
	f := func() { x++ }
	x = 0
	f()
	return x
}

// shifts and masks
func OkRound(n uint32) uint32 {
	if n > 1<<20 {
		return 0
	}
	return (n + 2047) &^ 2047
}
func BadRound(n uint32) uint32 { return (n + 2047) &^ 2047 }
func OkHigh(n uint16) byte     { return byte(n >> 8) }
func BadHigh(n uint16) byte    { return byte(n >> 7) }

// signed division and remainder round towards zero
func OkRem(n int) int {
	if n < 0 {
		return 0
	}
	return n % 16
}
func BadRem(n int) int { return n % 16 }

// dynamic types
type named interface{ Name() string }

func OkType(v interface{}) int {
	switch x := v.(type) {
	case int:
		return x
	case string:
		return len(x)
	}
	return -1
}
func BadType(v interface{}) int { return v.(int) }

// copy
func OkCopy(dst, src []byte) int { return copy(dst, src) }
func BadCopy(dst, src []byte) byte {
	copy(dst, src)
	return dst[0]
}

// a loop left early
func OkFind(xs []int, v int) int {
	for i, x := range xs {
		if x == v {
			return i
		}
	}
	return -1
}
func BadFind(xs []int, v int) int {
	for i, x := range xs {
		if x >= v {
			return i
		}
	}
	return -1
}

// memory changed by another loop iteration
func OkZero(xs []byte) {
	for i := range xs {
		xs[i] = 0
	}
}
func BadZero(xs []byte) {
	for i := range xs {
		if i > 0 {
			xs[i-1] = 1
		}
		xs[i] = 0
	}
}

// a callee that changes memory
func bump(p *Pair) { p.A++ }
func BadEffect(p *Pair) int {
	p.A = 1
	bump(p)
	return p.A
}
func OkEffect(p *Pair) int {
	p.A = 1
	bump(p)
	return p.A
}

// a callee that fails
func may(n int) (int, error) {
	if n > 100 {
		return 0, errBig
	}
	return n + 1, nil
}
func OkMay(n int) (int, error) {
	r, err := may(n)
	if err != nil {
		return 0, err
	}
	return r, nil
}
func BadMay(n int) (int, error) {
	r, _ := may(n)
	return r, nil
}

// strings
func OkPrefix(s, p string) bool  { return len(s) >= len(p) && s[:len(p)] == p }
func BadPrefix(s, p string) bool { return s[:len(p)] == p }

// a struct copied is a separate struct
func BadValue(p *Pair) int {
	c := *p
	p.A = 8
	return c.A
}
func OkValue(p *Pair) int {
	c := *p
	c.A = 8
	return p.A
}

// goroutine results arrive through the channel, not before
func BadChan(p *Pair) int {
	c := make(chan int, 1)
	go func() { p.A = 2; c <- 1 }()
	return p.A
}

// select may take any ready case
func BadSelect(a, b chan int) int {
	select {
	case <-a:
		return 1
	case <-b:
		return 2
	}
}
func OkSelect(a, b chan int) int {
	select {
	case <-a:
		return 1
	case <-b:
		return 2
	}
}

// what a callee did is not what its caller did
func poke(p *Pair)  { p.A = 0 }
func fires(p *Pair) { poke(p); poke(p) }
func BadRecords(p *Pair) int {
	fires(p)
	return 1
}
func OkRecords(p *Pair) int {
	fires(p)
	return 0
}

// a method of an unknown type may change anything
func BadUnknown(p *Pair, v named) int {
	p.A = 1
	v.Name()
	return p.A
}

// an embedded structure is part of its container
type Outer struct {
	X int
	P Pair
}

func BadInner(o *Outer, q *Pair) int {
	o.P.A = 1
	q.A = 2
	return o.P.A
}
func OkInner(o *Outer) int {
	q := &o.P
	q.A = 2
	return o.P.A
}

// elements of a slice of structures
func BadElems(ps []Pair, i, j int) int {
	p, q := &ps[i], &ps[j]
	p.A = 1
	q.A = 2
	return ps[i].A
}
func OkElems(ps []Pair, i, j int) int {
	p, q := &ps[i], &ps[j]
	p.A = 1
	q.A = 2
	return ps[j].A
}

// unsigned differences wrap
func BadDiff(a, b uint32) uint32 { return a - b }
func OkDiff(a, b uint32) uint32 {
	if a < b {
		return 0
	}
	return a - b
}

// a counter that wraps
func BadWrap(n uint16) uint16 {
	var c uint16
	for i := uint16(0); i < n; i += 2 {
		c++
	}
	return c
}

// recovered panics
func BadRecover(xs []int) (r int) {
	defer func() {
		if recover() != nil {
			r = -1
		}
	}()
	return xs[0]
}

// values of a map visited in a loop
func BadRange(m map[string]int) (n int) {
	for _, v := range m {
		n = v
	}
	return
}

// strings made from bytes are copies
func BadString(b []byte) string {
	s := string(b)
	b[0] = 'x'
	return string(b)[:0] + s
}
func OkString(b []byte) string {
	s := string(b)
	b[0] = 'x'
	return s
}

// nested loops
func BadNestedLoops(n, m int) (c int) {
	for i := 0; i < n; i++ {
		for j := 0; j < m; j++ {
			c++
		}
		c++
	}
	return
}

// a switch that falls through
func BadFall(n int) (r int) {
	switch n {
	case 1:
		r = 1
		fallthrough
	case 2:
		r = 2
	}
	return
}

// signed shifts and conversions
func BadSign(b byte) int { return int(int8(b)) }
func OkSign(b byte) int  { return int(b) }

// a pointer that may be nil after a failed lookup
func BadLookup(m map[string]*Pair, k string) int { return m[k].A }
func OkLookup(m map[string]*Pair, k string) int {
	if p, ok := m[k]; ok && p != nil {
		return p.A
	}
	return 0
}

// a deferred call sees later changes
func BadLate(p *Pair) (r int) {
	x := 1
	defer func() { p.A = x }()
	x = 2
	return 0
}
func OkLate(p *Pair) (r int) {
	x := 1
	defer func(x int) { p.A = x }(x)
	x = 2
	return 0
}
