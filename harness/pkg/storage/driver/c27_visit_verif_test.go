package driver_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

var errInjected = errors.New("injected failure")

type vinfo struct {
	name string
	dir  bool
}

func (v vinfo) Name() string       { return v.name }
func (v vinfo) Size() int64        { return 0 }
func (v vinfo) Mode() os.FileMode  { return 0 }
func (v vinfo) ModTime() time.Time { return time.Time{} }
func (v vinfo) IsDir() bool        { return v.dir }
func (v vinfo) Sys() interface{}   { return nil }

func vpause(r *rand.Rand, mu *sync.Mutex) {
	mu.Lock()
	n := r.Intn(6)
	mu.Unlock()
	for ; n > 0; n-- {
		runtime.Gosched()
	}
	if n == -3 {
		time.Sleep(time.Microsecond)
	}
}

type vtree struct {
	dirs map[string][]os.FileInfo
	fail map[string]bool

	mu    sync.Mutex
	r     *rand.Rand
	reads map[string]int
}

func (v *vtree) Readdir(ctx context.Context, url string) ([]os.FileInfo, error) {
	vpause(v.r, &v.mu)
	v.mu.Lock()
	defer v.mu.Unlock()
	v.reads[url]++
	if v.fail["r"+url] {
		return nil, errInjected
	}
	fs, ok := v.dirs[url]
	if !ok {
		return nil, fmt.Errorf("no directory %q", url)
	}
	return fs, nil
}

type vvisitor struct {
	t      *vtree
	depth  bool
	conc   int
	skip   map[string]bool
	order  []string
	lists  map[string]string
	active int
	most   int
}

func (v *vvisitor) VisitDir(base string, files []os.FileInfo) error {
	v.t.mu.Lock()
	v.active++
	if v.active > v.most {
		v.most = v.active
	}
	v.t.mu.Unlock()
	vpause(v.t.r, &v.t.mu)
	v.t.mu.Lock()
	defer v.t.mu.Unlock()
	v.active--
	v.order = append(v.order, base)
	v.lists[base] = fmt.Sprint(files)
	if v.t.fail["v"+base] {
		return errInjected
	}
	return nil
}

func (v *vvisitor) Concurrency() int { return v.conc }
func (v *vvisitor) DepthFirst() bool { return v.depth }
func (v *vvisitor) ShouldVisitDir(url string) (bool, error) {
	v.t.mu.Lock()
	defer v.t.mu.Unlock()
	if v.t.fail["p"+url] {
		return false, errInjected
	}
	return !v.skip[url], nil
}

type vplain struct{ v *vvisitor }

func (p vplain) VisitDir(base string, files []os.FileInfo) error { return p.v.VisitDir(base, files) }

func vmktree(r *rand.Rand, root string, n int) *vtree {
	t := &vtree{dirs: map[string][]os.FileInfo{root: nil}, fail: map[string]bool{}, reads: map[string]int{}, r: rand.New(rand.NewSource(r.Int63()))}
	all := []string{root}
	for i := 0; i < n; i++ {
		var p string
		if r.Intn(3) == 0 {
			p = all[len(all)-1]
		} else {
			p = all[r.Intn(len(all))]
		}
		name := fmt.Sprintf("d%d", i)
		t.dirs[p] = append(t.dirs[p], vinfo{name, true})
		c := p + "/" + name
		if p == "" {
			c = name
		}
		t.dirs[c] = nil
		all = append(all, c)
	}
	for _, p := range all {
		for i := r.Intn(3); i > 0; i-- {
			t.dirs[p] = append(t.dirs[p], vinfo{fmt.Sprintf("f%d", i), false})
		}
		if r.Intn(4) == 0 {
			t.dirs[p] = append(t.dirs[p], vinfo{".", true}, vinfo{"..", true})
		}
		fs := t.dirs[p]
		r.Shuffle(len(fs), func(i, j int) { fs[i], fs[j] = fs[j], fs[i] })
	}
	return t
}

func TestVerif_C27_Visit(t *testing.T) {
	r := vrand()
	rounds := 15000
	if vthorough() {
		rounds = 300000
	}
	for k := 0; k < rounds; k++ {
		root := []string{"", "ram:/x", "/"}[r.Intn(3)]
		n := r.Intn(12)
		if k%50 == 0 {
			n = 100
		}
		tr := vmktree(r, root, n)
		var names []string
		for d := range tr.dirs {
			names = append(names, d)
		}
		sort.Strings(names)
		v := &vvisitor{t: tr, depth: r.Intn(2) == 0, conc: r.Intn(5), skip: map[string]bool{}, lists: map[string]string{}}
		if r.Intn(8) == 0 {
			v.conc = -1
		}
		if r.Intn(3) == 0 {
			v.skip[names[r.Intn(len(names))]] = true
		}
		plain := r.Intn(6) == 0
		for i := 0; r.Intn(3) == 0 && i < 3; i++ {
			tr.fail[string("rvp"[r.Intn(3)])+names[r.Intn(len(names))]] = true
		}
		var vis driver.Visitor = v
		if plain {
			vis = vplain{v}
			v.depth, v.conc, v.skip = false, 0, map[string]bool{}
		}
		// what a visit reaches
		level := map[string]int{}
		failing := false
		var walk func(p string, d int)
		walk = func(p string, d int) {
			if tr.fail["p"+p] && !plain {
				failing = true
				return
			}
			if v.skip[p] {
				return
			}
			level[p] = d
			if tr.fail["r"+p] || tr.fail["v"+p] {
				failing = true
				return
			}
			for _, f := range tr.dirs[p] {
				if f.IsDir() && f.Name() != "." && f.Name() != ".." {
					c := p + "/" + f.Name()
					if p == "" {
						c = f.Name()
					}
					walk(c, d+1)
				}
			}
		}
		walk(root, 0)
		in := fmt.Sprintf("tree %q skip %v fail %v depth-first %v concurrency %d plain %v", names, v.skip, tr.fail, v.depth, v.conc, plain)
		var err error
		if !vwithin(t, "c27:visit", in, 60*time.Second, func() { err = driver.Visit(context.Background(), tr, root, vis) }) {
			continue
		}
		tr.mu.Lock()
		order := append([]string(nil), v.order...)
		tr.mu.Unlock()
		if failing != (err != nil) {
			vfail(t, "c27:error", "%s: returns %v after visiting %q", in, err, order)
			continue
		}
		seen := map[string]int{}
		for _, p := range order {
			seen[p]++
			if seen[p] > 1 {
				vfail(t, "c27:twice", "%s: %q is visited twice", in, p)
			}
			if _, ok := level[p]; !ok {
				vfail(t, "c27:excluded", "%s: %q is visited", in, p)
			}
		}
		if failing {
			continue
		}
		for p := range level {
			if seen[p] == 0 {
				vfail(t, "c27:missed", "%s: %q is never visited", in, p)
				break
			}
			if tr.reads[p] != 1 {
				vfail(t, "c27:reads", "%s: %q is listed %d times", in, p, tr.reads[p])
			}
			if v.lists[p] != fmt.Sprint(tr.dirs[p]) {
				vfail(t, "c27:listing", "%s: %q is visited with %s", in, p, v.lists[p])
			}
		}
		conc := v.conc
		if conc <= 0 {
			conc = 32
		}
		if v.most > conc {
			vfail(t, "c27:concurrency", "%s: %d visits at the same time", in, v.most)
		}
		if !v.depth {
			for i := 1; i < len(order); i++ {
				if level[order[i]] < level[order[i-1]] {
					vfail(t, "c27:levels", "%s: %q is visited after %q", in, order[i], order[i-1])
					break
				}
			}
		} else if conc == 1 {
			// the most recently found directory goes first
			for i := 1; i < len(order); i++ {
				parent := order[i-1]
				kids := 0
				for _, f := range tr.dirs[parent] {
					c := parent + "/" + f.Name()
					if parent == "" {
						c = f.Name()
					}
					if _, ok := level[c]; ok && f.IsDir() && f.Name() != "." && f.Name() != ".." {
						kids++
					}
				}
				if kids > 0 && !plainSkip(v, tr, parent) && level[order[i]] != level[parent]+1 {
					vfail(t, "c27:depth", "%s: %q is visited after %q", in, order[i], parent)
					break
				}
			}
		}
	}
	vcases("C27.visits", rounds)
}

// plainSkip reports whether some child of the directory is excluded, in which
// case the next visit may be elsewhere.
func plainSkip(v *vvisitor, tr *vtree, p string) bool {
	for s := range v.skip {
		if p == "" || strings.HasPrefix(s, p+"/") {
			return true
		}
	}
	return false
}

// The last directory fails, or the visit is cancelled: never a success, and no
// goroutine stays behind.
func TestVerif_C27_Ends(t *testing.T) {
	rounds := 8000
	if vthorough() {
		rounds = 100000
	}
	r := vrand()
	base := runtime.NumGoroutine()
	for k := 0; k < rounds; k++ {
		tr := vmktree(r, "/", r.Intn(3))
		var names []string
		for d := range tr.dirs {
			names = append(names, d)
		}
		sort.Strings(names)
		v := &vvisitor{t: tr, depth: r.Intn(2) == 0, conc: 1 + r.Intn(2), skip: map[string]bool{}, lists: map[string]string{}}
		ctx, cancel := context.WithCancel(context.Background())
		what := "listing"
		switch k % 3 {
		case 0:
			for _, n := range names {
				tr.fail["r"+n] = n == names[len(names)-1] || r.Intn(2) == 0
			}
		case 1:
			what = "visitor"
			for _, n := range names {
				tr.fail["v"+n] = n == names[len(names)-1] || r.Intn(2) == 0
			}
		case 2:
			what = "cancelled before"
			cancel()
		}
		var err error
		in := fmt.Sprintf("tree %q, failing %s", names, what)
		vwithin(t, "c27:end", in, 60*time.Second, func() { err = driver.Visit(ctx, tr, "/", v) })
		if err == nil {
			vfail(t, "c27:lost", "%s: the visit reports success", in)
		}
		cancel()
	}
	left := 0
	for i := 0; i < 200; i++ {
		if left = runtime.NumGoroutine() - base; left < 50 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	if left >= 50 {
		vfail(t, "c27:leak", "%d goroutines are left after %d visits that ended early", left, rounds)
	}
	vcases("C27.ends", rounds)
}
