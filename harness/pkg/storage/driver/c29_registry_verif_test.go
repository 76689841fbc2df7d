package driver_test

import (
	"context"
	"fmt"
	"os"
	"sort"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

type vnamed struct{ name string }

func (v *vnamed) Name() string { return v.name }
func (v *vnamed) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	return nil, nil
}
func (v *vnamed) Stat(ctx context.Context, url string) (os.FileInfo, error) { return nil, nil }

func TestVerif_C29_Registry(t *testing.T) {
	r := vrand()
	rounds := 3000
	if vthorough() {
		rounds = 50000
	}
	schemes := []string{"file", "http", "https", "ram", "s3", "x+y"}
	urlOf := func(s string) string {
		return []string{s + ":opaque", s + "://h/p", s + ":/p", s + "://h:1/p?q=file:#f"}[r.Intn(4)]
	}
	plain := []string{"/abs", "rel", "./a:b", "dir/a:b", "", "../x", "//host/x", "a%20b", "?q", "#f"}
	bad := []string{":x", "http://[::1", "%zz", "http://a b/", "\x7f", "1a:b"}
	undoAll := driver.ClearRegistry()
	defer undoAll()
	for k := 0; k < rounds; k++ {
		type frame struct {
			m    map[string]driver.Driver
			undo driver.Undo
		}
		stack := []frame{{map[string]driver.Driver{}, driver.ClearRegistry()}}
		hist := ""
		for i := 0; i < 12; i++ {
			top := &stack[len(stack)-1]
			switch op := r.Intn(8); {
			case op < 3:
				s := schemes[r.Intn(len(schemes))]
				var d driver.Driver = &vnamed{fmt.Sprint(k, i)}
				if r.Intn(8) == 0 {
					d = nil
				}
				hist += fmt.Sprintf(" register(%s, nil %v)", s, d == nil)
				_, dup := top.m[s]
				p := vpanics(func() { driver.Register(s, d) })
				if p != (dup || d == nil) {
					vfail(t, "c29:register", "%s: refused %v", hist, p)
				}
				if !p && d != nil && !dup {
					top.m[s] = d
				}
			case op == 3 && len(stack) < 4:
				hist += " clear"
				stack = append(stack, frame{map[string]driver.Driver{}, driver.ClearRegistry()})
			case op == 4 && len(stack) > 1:
				hist += " restore"
				top.undo()
				stack = stack[:len(stack)-1]
			case op == 5:
				var want []string
				for s := range top.m {
					want = append(want, s)
				}
				sort.Strings(want)
				if got := driver.Drivers(); fmt.Sprint(got) != fmt.Sprint(want) {
					vfail(t, "c29:drivers", "%s: drivers %v, want %v", hist, got, want)
				}
			default:
				s := schemes[r.Intn(len(schemes))]
				url := urlOf(s)
				isBad := false
				switch r.Intn(5) {
				case 0:
					url, s = plain[r.Intn(len(plain))], "file"
				case 1:
					url, isBad = bad[r.Intn(len(bad))], true
				}
				want, ok := top.m[s]
				ok = ok && !isBad
				vguard(t, "c29:find", fmt.Sprintf("%s find(%q)", hist, url), func() {
					got, err := driver.Find(url)
					if ok != (err == nil) || ok && got != want {
						vfail(t, "c29:find", "%s: find(%q) gives %v, %v", hist, url, got, err)
					}
				})
			}
		}
		for i := len(stack) - 1; i >= 0; i-- {
			stack[i].undo()
		}
		if d := driver.Drivers(); len(d) != 0 {
			vfail(t, "c29:restore", "%s: drivers %v are left", hist, d)
		}
	}
	vcases("C29.histories", rounds)
}
