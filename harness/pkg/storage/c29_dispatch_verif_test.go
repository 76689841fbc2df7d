package storage_test

import (
	"context"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

var errFromDriver = errors.New("the driver's own error")

type vcall struct {
	who, op, url string
	size         int64
	ctx          context.Context
}

type vlog struct{ calls []vcall }

// vbasic offers only what every driver must.
type vbasic struct {
	name string
	log  *vlog
}

func (d *vbasic) Name() string { return d.name }
func (d *vbasic) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "open", url, size, ctx})
	return nil, errFromDriver
}
func (d *vbasic) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "stat", url, 0, ctx})
	return nil, errFromDriver
}

type vcreator struct{ vbasic }

func (d *vcreator) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "create", url, 0, ctx})
	return nil, errFromDriver
}

type vremover struct{ vbasic }

func (d *vremover) Remove(ctx context.Context, url string) error {
	d.log.calls = append(d.log.calls, vcall{d.name, "remove", url, 0, ctx})
	return errFromDriver
}

type vlister struct{ vbasic }

func (d *vlister) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "readdir", url, 0, ctx})
	return nil, errFromDriver
}

type vlocker struct{ vbasic }

func (d *vlocker) Lock(ctx context.Context, url string) (io.Closer, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "lock", url, 0, ctx})
	return nil, errFromDriver
}
func (d *vlocker) RLock(ctx context.Context, url string) (io.Closer, error) {
	d.log.calls = append(d.log.calls, vcall{d.name, "rlock", url, 0, ctx})
	return nil, errFromDriver
}

type vall struct{ vbasic }

func (d *vall) Create(ctx context.Context, url string) (driver.ObjectWriter, error) {
	return (&vcreator{d.vbasic}).Create(ctx, url)
}
func (d *vall) Remove(ctx context.Context, url string) error {
	return (&vremover{d.vbasic}).Remove(ctx, url)
}
func (d *vall) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	return (&vlister{d.vbasic}).Readdir(ctx, url)
}
func (d *vall) Lock(ctx context.Context, url string) (io.Closer, error) {
	return (&vlocker{d.vbasic}).Lock(ctx, url)
}
func (d *vall) RLock(ctx context.Context, url string) (io.Closer, error) {
	return (&vlocker{d.vbasic}).RLock(ctx, url)
}

type vnop struct{}

func (vnop) VisitDir(string, []os.FileInfo) error { return nil }

func TestVerif_C29_Dispatch(t *testing.T) {
	undo := driver.ClearRegistry()
	defer undo()
	l := &vlog{}
	offers := map[string]string{"basic": "open stat", "creator": "open stat create", "remover": "open stat remove", "lister": "open stat readdir visit", "locker": "open stat lock rlock", "file": "open stat create remove readdir visit lock rlock"}
	driver.Register("basic", &vbasic{"basic", l})
	driver.Register("creator", &vcreator{vbasic{"creator", l}})
	driver.Register("remover", &vremover{vbasic{"remover", l}})
	driver.Register("lister", &vlister{vbasic{"lister", l}})
	driver.Register("locker", &vlocker{vbasic{"locker", l}})
	driver.Register("file", &vall{vbasic{"file", l}})
	type key int
	ctx := context.WithValue(context.Background(), key(1), "mine")
	type vop struct {
		name string
		ctx  bool
		do   func(url string, size int64) error
	}
	var size int64
	ops := []vop{
		{"open", false, func(u string, n int64) error { size = -1; _, err := storage.Open(u); return err }},
		{"open", false, func(u string, n int64) error { size = n; _, err := storage.OpenSize(u, n); return err }},
		{"open", true, func(u string, n int64) error { size = n; _, err := storage.OpenContextSize(ctx, u, n); return err }},
		{"create", false, func(u string, n int64) error { _, err := storage.Create(u); return err }},
		{"create", true, func(u string, n int64) error { _, err := storage.CreateContext(ctx, u); return err }},
		{"remove", false, func(u string, n int64) error { return storage.Remove(u) }},
		{"remove", true, func(u string, n int64) error { return storage.RemoveContext(ctx, u) }},
		{"stat", false, func(u string, n int64) error { _, err := storage.Stat(u); return err }},
		{"stat", true, func(u string, n int64) error { _, err := storage.StatContext(ctx, u); return err }},
		{"readdir", false, func(u string, n int64) error { _, err := storage.Readdir(u); return err }},
		{"readdir", true, func(u string, n int64) error { _, err := storage.ReaddirContext(ctx, u); return err }},
		{"lock", false, func(u string, n int64) error { _, err := storage.Lock(u); return err }},
		{"lock", true, func(u string, n int64) error { _, err := storage.LockContext(ctx, u); return err }},
		{"rlock", false, func(u string, n int64) error { _, err := storage.RLock(u); return err }},
		{"rlock", true, func(u string, n int64) error { _, err := storage.RLockContext(ctx, u); return err }},
		{"visit", false, func(u string, n int64) error { return storage.Visit(u, vnop{}) }},
		{"visit", true, func(u string, n int64) error { return storage.VisitContext(ctx, u, vnop{}) }},
	}
	urls := []string{}
	for _, s := range []string{"basic", "creator", "remover", "lister", "locker", "file", "unknown", "BASIC"} {
		urls = append(urls, s+":x", s+"://h/a%2Fb?q=%20#f", s+":///p/../q", s+"://h//x ")
	}
	urls = append(urls, "/abs/../p", "rel/p", "./a:b", "", "%zz", ":x", "a b%20c")
	n := 0
	for _, u := range urls {
		scheme := "file"
		if i := strings.Index(u, ":"); i > 0 && !strings.Contains(u[:i], "/") {
			scheme = strings.ToLower(u[:i])
		}
		isBad := u == "%zz" || u == ":x"
		for i, o := range ops {
			for _, sz := range []int64{-1, 0, 7, 1 << 40} {
				n++
				l.calls = nil
				size = 0
				in := fmt.Sprintf("operation %d (%s) on %q, size %d", i, o.name, u, sz)
				var err error
				if !vguard(t, "c29:dispatch", in, func() { err = o.do(u, sz) }) {
					continue
				}
				if err == nil {
					vfail(t, "c29:error", "%s succeeds", in)
					continue
				}
				known := false
				for _, w := range strings.Fields(offers[scheme]) {
					known = known || w == o.name
				}
				if isBad || !known {
					if len(l.calls) != 0 || err == errFromDriver {
						vfail(t, "c29:unknown", "%s reaches %+v", in, l.calls)
					}
					continue
				}
				want := o.name
				if want == "visit" {
					want = "readdir"
				}
				if len(l.calls) != 1 || err != errFromDriver {
					vfail(t, "c29:dispatch", "%s makes %d calls and gives %v", in, len(l.calls), err)
					continue
				}
				c := l.calls[0]
				if c.who != scheme || c.op != want || c.url != u || want == "open" && c.size != size {
					vfail(t, "c29:dispatch", "%s becomes %s of %q, size %d, by %s", in, c.op, c.url, c.size, c.who)
				}
				if o.ctx && c.ctx.Value(key(1)) != "mine" || !o.ctx && c.ctx == nil {
					vfail(t, "c29:context", "%s loses its context", in)
				}
			}
		}
	}
	vcases("C29.requests", n)
}

var _ = ioutil.Discard
