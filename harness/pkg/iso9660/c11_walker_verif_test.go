package iso9660_test

import (
	"bytes"
	"errors"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"syscall"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func describe(fi *iso9660.FileInfo, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	if fi == nil {
		return "nothing"
	}
	return fmt.Sprintf("%.40q size %d mode %v dir %v extent %d target %.60q nlink %d uid %d gid %d ino %d time %s", fi.Name(), fi.Size(), fi.Mode(), fi.IsDir(), fi.Extent(), fi.Target(), fi.Nlink(), fi.Uid(), fi.Gid(), fi.Ino(), fi.ModTime())
}

// resolve follows symbolic links at the end of a path as documented: the
// target of a link is taken relative to the directory that holds the link.
func resolve(root *vnode, p string) (string, *vnode, error) {
	p = path.Clean("/" + p)
	for i := 0; i < iso9660.SymlinkRecursionLimit; i++ {
		n, err := lookup(root, p)
		if err != nil {
			return p, nil, err
		}
		if n.kind != 'l' {
			return p, n, nil
		}
		if path.IsAbs(n.target) {
			p = path.Clean(n.target)
		} else {
			p = path.Join(path.Dir(p), n.target)
		}
	}
	return p, nil, syscall.ELOOP
}

func lookup(root *vnode, p string) (*vnode, error) {
	n := root
	for _, s := range strings.Split(path.Clean("/" + p)[1:], "/") {
		if s == "" {
			continue
		}
		if n.kind != 'd' {
			return nil, syscall.ENOTDIR
		}
		k := n.kids[s]
		if k == nil {
			return nil, syscall.ENOENT
		}
		n = k
	}
	return n, nil
}

// matches compares an answer with what was added.
func matches(fi *iso9660.FileInfo, n *vnode, p string) string {
	if base := path.Base(p); p != "/" && fi.Name() != base {
		return fmt.Sprintf("name %.40q", fi.Name())
	}
	switch n.kind {
	case 'd':
		if !fi.IsDir() || fi.Mode()&os.ModeType != os.ModeDir {
			return "not a directory"
		}
		sub := uint32(2)
		for _, k := range n.kids {
			if k.kind == 'd' {
				sub++
			}
		}
		if fi.Nlink() != sub {
			return fmt.Sprintf("link count %d", fi.Nlink())
		}
	case 'f':
		if fi.IsDir() || fi.Mode()&os.ModeType != 0 {
			return "not a file"
		}
		if fi.Size() != n.obj.size {
			return fmt.Sprintf("size %d", fi.Size())
		}
		if fi.Mode().Perm() != 0444 {
			return fmt.Sprintf("permissions %v", fi.Mode())
		}
	case 'l':
		if fi.IsDir() || fi.Mode()&os.ModeType != os.ModeSymlink {
			return "not a symbolic link"
		}
		if path.Clean(fi.Target()) != path.Clean(n.target) {
			return fmt.Sprintf("target %.60q", fi.Target())
		}
	}
	return ""
}

func errIs(err error, want error) bool {
	return errors.Is(err, want) || err != nil && strings.Contains(err.Error(), want.Error())
}

// walkTree is a small tree with clashing names at different depths and links of every kind.
func walkTree(r *rand.Rand) (*iso9660.Volume, *vnode, string) {
	v := iso9660.NewVolume()
	root := newDir()
	names := [][]string{
		{"a", "b", "c", "dir", "x.y"},
		{"a", "A", "aa", "Aa", "a.", "a-", "aaa"},
		{"dir", "DIR", "di", "r", "Dir", "d", "ir"},
	}[r.Intn(3)]
	for i := 3 + r.Intn(25); i > 0; i-- {
		var p []string
		for k := 1 + r.Intn(4); k > 0; k-- {
			p = append(p, names[r.Intn(len(names))])
		}
		s := strings.Join(p, "/")
		bad := root.find(s) != nil
		for q := path.Dir(s); q != "."; q = path.Dir(q) {
			if x := root.find(q); x != nil && x.kind != 'd' {
				bad = true
			}
		}
		if bad {
			continue
		}
		if r.Intn(3) == 0 {
			var q []string
			for k := 1 + r.Intn(4); k > 0; k-- {
				q = append(q, append([]string{"..", ".."}, names...)[r.Intn(len(names)+2)])
			}
			tg := strings.Join(q, "/")
			if r.Intn(4) == 0 {
				tg = "/" + tg
			}
			if err := v.AddSymlink(s, tg); err != nil {
				return nil, nil, err.Error()
			}
			root.add(s, &vnode{kind: 'l', target: tg})
			continue
		}
		o := &vobj{size: int64(r.Intn(5000)), seed: byte(i), url: "v:"}
		if err := v.AddFile(s, o); err != nil {
			return nil, nil, err.Error()
		}
		root.add(s, &vnode{kind: 'f', obj: o})
	}
	return v, root, ""
}

func TestVerif_C11_Walker(t *testing.T) {
	r := vrand()
	n := 250
	if vthorough() {
		n = 2500
	}
	queries := 0
	for k := 0; k < n; k++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		var v *iso9660.Volume
		var root *vnode
		var bad string
		if k%4 == 0 {
			v, root, bad = vtree(rr, k%8 == 0, false)
		} else {
			v, root, bad = walkTree(rr)
		}
		if bad != "" {
			vfail(t, "c11:add", "%s", bad)
			continue
		}
		in := vdescribe(root)
		var buf bytes.Buffer
		if _, err := v.WriteTo(&buf); err != nil {
			vfail(t, "c11:write", "%v; tree %s", err, in)
			continue
		}
		m := vimg{buf.Bytes()}
		var paths []string
		root.each("/", func(p string, n *vnode) { paths = append(paths, p) })
		pick := func() string {
			p := paths[rr.Intn(len(paths))]
			switch rr.Intn(8) {
			case 0:
				p = path.Join(p, "a")
			case 1:
				p += "/nosuch"
			case 2:
				p = path.Join(p, "b", "c")
			case 3:
				p = p + "/../" + path.Base(p)
			case 4:
				if len(p) > 1 {
					p = p[1:]
				}
			case 5:
				p += "/"
			}
			return p
		}
		used := iso9660.NewWalker(m)
		var hist []string
		fresh := k%2 == 0
		for q := 0; q < 60; q++ {
			queries++
			p := pick()
			op := rr.Intn(5)
			w := used
			if fresh && q%2 == 0 {
				w = iso9660.NewWalker(m)
			}
			name := []string{"Lstat", "Stat", "ReadDir", "Open", "Walk"}[op]
			what := fmt.Sprintf("%s(%.80q) after %s; tree %s", name, p, strings.Join(hist, " "), in)
			if w == used {
				hist = append(hist, fmt.Sprintf("%s(%.40q)", name, p))
				if len(hist) > 12 {
					hist = hist[1:]
				}
			}
			vwithin(t, "c11", what, 20e9, func() { checkQuery(t, w, m, root, op, p, what) })
		}
	}
	vcases("C11.queries", queries)
}

func checkQuery(t *testing.T, w *iso9660.Walker, m vimg, root *vnode, op int, p, what string) {
	at, want, werr := path.Clean("/"+p), (*vnode)(nil), error(nil)
	if op == 1 || op == 3 {
		at, want, werr = resolve(root, p)
	} else {
		want, werr = lookup(root, p)
	}
	wrongErr := func(err error) bool {
		if (err != nil) != (werr != nil) {
			vfail(t, "c11:answer", "%s: error %v, expected %v", what, err, werr)
			return true
		}
		if err != nil && !errIs(err, werr) {
			vfail(t, "c11:error", "%s: error %v, expected %v", what, err, werr)
		}
		return err != nil
	}
	switch op {
	case 0, 1:
		var fi *iso9660.FileInfo
		var err error
		if op == 0 {
			fi, err = w.Lstat(p)
		} else {
			fi, err = w.Stat(p)
		}
		if wrongErr(err) {
			return
		}
		if d := matches(fi, want, at); d != "" {
			vfail(t, "c11:answer", "%s: %s (%s)", what, d, describe(fi, nil))
		}
		if fi2, err := iso9660.NewWalker(m).Lstat(at); describe(fi2, err) != describe(fi, nil) {
			vfail(t, "c11:history", "%s: %s, a new walker says %s", what, describe(fi, nil), describe(fi2, err))
		}
	case 2:
		es, err := w.ReadDir(p)
		if werr == nil && want.kind != 'd' {
			werr = syscall.ENOTDIR
		}
		if wrongErr(err) {
			return
		}
		checkList(t, es, want, what)
	case 3:
		f, err := w.Open(p)
		if wrongErr(err) {
			return
		}
		defer f.Close()
		es, derr := f.ReadDir()
		if want.kind == 'd' {
			if derr != nil {
				vfail(t, "c11:answer", "%s: listing fails with %v", what, derr)
				return
			}
			checkList(t, es, want, what)
			return
		}
		if derr == nil {
			vfail(t, "c11:error", "%s: a file was listed", what)
		}
		b, err := ioutil.ReadAll(f)
		if err != nil || int64(len(b)) != want.obj.size || f.Size() != want.obj.size {
			vfail(t, "c11:content", "%s: read %d bytes of %d (size %d), %v", what, len(b), want.obj.size, f.Size(), err)
			return
		}
		for i := range b {
			if b[i] != want.obj.at(int64(i)) {
				vfail(t, "c11:content", "%s: byte %d differs", what, i)
				return
			}
		}
		if len(b) > 3 {
			var one [3]byte
			if n, err := f.ReadAt(one[:], int64(len(b)-3)); n != 3 || err != nil || !bytes.Equal(one[:], b[len(b)-3:]) {
				vfail(t, "c11:content", "%s: ReadAt gives %v %v", what, n, err)
			}
		}
	case 4:
		type call struct{ dir, name string }
		seen := map[call]int{}
		first := true
		err := w.Walk(p, func(pp string, info os.FileInfo, err error) error {
			if first {
				first = false
				if (err != nil) != (werr != nil) {
					vfail(t, "c11:walk", "%s: first call has error %v, expected %v", what, err, werr)
				}
				return err
			}
			if err != nil {
				return err
			}
			seen[call{path.Clean(pp), info.Name()}]++
			return nil
		})
		if werr != nil {
			if err == nil {
				vfail(t, "c11:walk", "%s: no error, expected %v", what, werr)
			}
			return
		}
		if err != nil {
			vfail(t, "c11:walk", "%s: %v", what, err)
			return
		}
		expect := map[call]int{}
		want.each(at, func(q string, x *vnode) {
			if x.kind == 'd' {
				expect[call{q, "."}]++
				expect[call{q, ".."}]++
				for k := range x.kids {
					expect[call{q, k}]++
				}
			}
		})
		for c, n := range expect {
			if seen[c] != n {
				vfail(t, "c11:walk", "%s: entry %.40q of %.40q visited %d times", what, c.name, c.dir, seen[c])
				return
			}
		}
		if len(seen) != len(expect) {
			vfail(t, "c11:walk", "%s: %d entries visited, %d expected", what, len(seen), len(expect))
		}
		// an error of the callback ends the walk and is returned
		stop := errors.New("stop here")
		calls, limit := 0, 2
		err = w.Walk(p, func(string, os.FileInfo, error) error {
			calls++
			if calls == limit {
				return stop
			}
			return nil
		})
		if want.kind == 'd' && (err != stop || calls != limit) {
			vfail(t, "c11:walk", "%s: callback failed at call %d, walk made %d calls and returned %v", what, limit, calls, err)
		}
	}
}

func checkList(t *testing.T, es []*iso9660.FileInfo, want *vnode, what string) {
	var got, exp []string
	for _, e := range es {
		got = append(got, e.Name())
		if e.Name() == "." || e.Name() == ".." {
			continue
		}
		if x := want.kids[e.Name()]; x == nil {
			vfail(t, "c11:answer", "%s lists %.60q", what, e.Name())
			return
		} else if d := matches(e, x, "/"+e.Name()); d != "" {
			vfail(t, "c11:answer", "%s: entry %s", what, d)
			return
		}
	}
	exp = append(exp, ".", "..")
	for k := range want.kids {
		exp = append(exp, k)
	}
	sort.Strings(got)
	sort.Strings(exp)
	if strings.Join(got, "/") != strings.Join(exp, "/") {
		vfail(t, "c11:answer", "%s lists %d entries, %d exist", what, len(got), len(exp))
	}
}
