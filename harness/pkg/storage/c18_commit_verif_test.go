package storage_test

import (
	"bytes"
	"context"
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"sort"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
	filedriver "github.com/NVIDIA/vdisc/pkg/storage/file"
	ramdriver "github.com/NVIDIA/vdisc/pkg/storage/ram"

	"github.com/NVIDIA/vdisc/pkg/storage"
)

type vdriver interface {
	driver.Driver
	driver.Creator
	driver.Remover
	driver.Readdirer
}

// vstore is the expected state of a store: files by path and directories.
type vstore struct {
	files map[string][]byte
	dirs  map[string]bool
	// early: directories appear when a writer is created
	early bool
}

func parents(p string) (out []string) {
	for i := range p {
		if p[i] == '/' {
			out = append(out, p[:i])
		}
	}
	return
}

func (s *vstore) blocked(p string) bool {
	for _, d := range parents(p) {
		if _, ok := s.files[d]; ok {
			return true
		}
	}
	return false
}

func (s *vstore) children(d string) []string {
	var out []string
	pre := d + "/"
	if d == "" {
		pre = ""
	}
	seen := map[string]bool{}
	add := func(p string) {
		if strings.HasPrefix(p, pre) && p != d {
			rest := p[len(pre):]
			if !strings.Contains(rest, "/") && rest != "" && !seen[rest] {
				seen[rest] = true
				out = append(out, rest)
			}
		}
	}
	for p := range s.files {
		add(p)
	}
	for p := range s.dirs {
		add(p)
	}
	sort.Strings(out)
	return out
}

var vpaths = []string{"a", "a/b", "a/b/c", "a/d", "x", "x/y", "z.txt", "a/b/c/d/e", "A"}

// agree compares everything the store shows with the expected state.
func (s *vstore) agree(t *testing.T, key, hist string, d vdriver, url func(string) string) bool {
	bg := context.Background()
	paths := append([]string{}, vpaths...)
	for p := range s.dirs {
		paths = append(paths, p)
	}
	for _, p := range paths {
		want, isFile := s.files[p]
		isDir := s.dirs[p]
		fi, err := d.Stat(bg, url(p))
		if (err == nil) != (isFile || isDir) {
			vfail(t, key+":stat", "%s then Stat(%s) gives %v; expected file %v, directory %v", hist, p, err, isFile, isDir)
			return false
		}
		if err == nil && (fi.IsDir() != isDir || isFile && fi.Size() != int64(len(want))) {
			vfail(t, key+":stat", "%s then Stat(%s) gives directory %v size %d; expected directory %v size %d", hist, p, fi.IsDir(), fi.Size(), isDir, len(want))
			return false
		}
		if isDir {
			continue
		}
		o, err := d.Open(bg, url(p), -1)
		if !isFile {
			if err == nil {
				vfail(t, key+":ghost", "%s then Open(%s) succeeds", hist, p)
				return false
			}
			continue
		}
		if err != nil {
			vfail(t, key+":missing", "%s then Open(%s) fails: %v", hist, p, err)
			return false
		}
		got, err := ioutil.ReadAll(o)
		o.Close()
		if err != nil || !bytes.Equal(got, want) || o.Size() != int64(len(want)) {
			vfail(t, key+":content", "%s then %s holds %q (size %d, %v); expected %q", hist, p, got, o.Size(), err, want)
			return false
		}
	}
	for _, p := range append([]string{""}, paths...) {
		fis, err := d.Readdir(bg, url(p))
		if p != "" && !s.dirs[p] {
			if err == nil {
				vfail(t, key+":list", "%s then listing %q succeeds", hist, p)
				return false
			}
			continue
		}
		var names []string
		for _, fi := range fis {
			if fi.Name() == "." || fi.Name() == ".." || strings.HasPrefix(fi.Name(), ".tmp.") {
				continue
			}
			names = append(names, fi.Name())
		}
		sort.Strings(names)
		want := s.children(p)
		if err != nil || fmt.Sprint(names) != fmt.Sprint(want) {
			vfail(t, key+":list", "%s then listing %q gives %v, %v; expected %v", hist, p, names, err, want)
			return false
		}
	}
	return true
}

type vwriter struct {
	w     driver.ObjectWriter
	path  string
	buf   []byte
	state int // 0 open, 1 committed, 2 aborted, 3 refused
}

func storeHistory(t *testing.T, key string, r *rand.Rand, d vdriver, s *vstore, url func(string) string) {
	bg := context.Background()
	var ws []*vwriter
	hist := key + ":"
	defer func() {
		for _, w := range ws {
			if w.state != 1 {
				w.w.Abort()
			}
		}
	}()
	for q := 0; q < 14; q++ {
		op := r.Intn(8)
		if len(ws) == 0 {
			op = 0
		}
		switch op {
		case 0, 1:
			p := vpaths[r.Intn(len(vpaths))]
			hist += fmt.Sprintf(" w%d=Create(%s)", len(ws), p)
			w, err := d.Create(bg, url(p))
			if err != nil {
				if !s.early || !s.blocked(p) {
					vfail(t, key+":create", "%s fails: %v", hist, err)
					return
				}
				continue
			}
			if s.early {
				for _, x := range parents(p) {
					s.dirs[x] = true
				}
			}
			ws = append(ws, &vwriter{w: w, path: p})
		case 2, 3:
			i := r.Intn(len(ws))
			w := ws[i]
			if w.state != 0 {
				continue
			}
			b := vcontent(r, r.Intn(12))
			hist += fmt.Sprintf(" w%d.Write(%d)", i, len(b))
			n, err := w.w.Write(b)
			if n != len(b) || err != nil {
				vfail(t, key+":write", "%s returns %d, %v", hist, n, err)
				return
			}
			w.buf = append(w.buf, b...)
			// the caller may reuse its buffer
			for j := range b {
				b[j] = 0xCC
			}
		case 4, 5:
			i := r.Intn(len(ws))
			w := ws[i]
			hist += fmt.Sprintf(" w%d.Commit()", i)
			ci, err := w.w.Commit()
			switch w.state {
			case 0:
				ok := !s.blocked(w.path) && !s.dirs[w.path]
				if ok != (err == nil) {
					vfail(t, key+":commit", "%s of %s gives %v", hist, w.path, err)
					return
				}
				if !ok {
					w.state = 3
					break
				}
				if ci == nil {
					vfail(t, key+":commit", "%s of %s gives no information", hist, w.path)
					return
				}
				o, err := d.Open(bg, ci.ObjectURL(), -1)
				if err != nil {
					vfail(t, key+":commit-url", "%s: cannot open the committed object %q: %v", hist, ci.ObjectURL(), err)
					return
				}
				o.Close()
				w.state = 1
				s.files[w.path] = append([]byte(nil), w.buf...)
				for _, x := range parents(w.path) {
					s.dirs[x] = true
				}
			case 2:
				if err == nil {
					vfail(t, key+":aborted", "%s succeeds after an abort", hist)
					return
				}
			case 3:
				if err == nil {
					if s.blocked(w.path) || s.dirs[w.path] {
						vfail(t, key+":refused", "%s succeeds after a failed commit, nothing was published", hist)
						return
					}
					if _, ok := s.files[w.path]; !ok || !bytes.Equal(s.files[w.path], w.buf) {
						// a later attempt that works publishes what was written
						w.state = 1
						s.files[w.path] = append([]byte(nil), w.buf...)
						for _, x := range parents(w.path) {
							s.dirs[x] = true
						}
					}
				}
			}
		case 6:
			i := r.Intn(len(ws))
			hist += fmt.Sprintf(" w%d.Abort()", i)
			ws[i].w.Abort()
			if ws[i].state == 0 || ws[i].state == 3 {
				ws[i].state = 2
			}
		case 7:
			p := vpaths[r.Intn(len(vpaths))]
			if r.Intn(12) == 0 {
				p = ""
			}
			hist += fmt.Sprintf(" Remove(%s)", p)
			busy := false // an open writer's temporary file keeps its directory
			for _, w := range ws {
				for _, x := range parents(w.path) {
					busy = busy || s.early && x == p && (w.state == 0 || w.state == 3)
				}
			}
			if busy || p == "" && s.early {
				continue
			}
			err := d.Remove(bg, url(p))
			_, isFile := s.files[p]
			switch {
			case isFile:
				if err != nil {
					vfail(t, key+":remove", "%s fails: %v", hist, err)
					return
				}
				delete(s.files, p)
			case s.dirs[p]:
				if err == nil {
					for f := range s.files {
						if strings.HasPrefix(f, p+"/") {
							if s.early {
								vfail(t, key+":remove", "%s removes a directory that holds %s", hist, f)
								return
							}
							delete(s.files, f)
						}
					}
					for x := range s.dirs {
						if x == p || strings.HasPrefix(x, p+"/") {
							delete(s.dirs, x)
						}
					}
				}
			default:
				if err == nil {
					vfail(t, key+":remove", "%s succeeds", hist)
					return
				}
			}
		}
		ok := false
		if !vguard(t, key, hist, func() { ok = s.agree(t, key, hist, d, url) }) || !ok {
			return
		}
	}
}

func TestVerif_C18_Memory(t *testing.T) {
	r := vrand()
	rounds := 1500
	if vthorough() {
		rounds = 40000
	}
	for k := 0; k < rounds; k++ {
		s := &vstore{files: map[string][]byte{}, dirs: map[string]bool{}}
		form := k % 3
		url := func(p string) string {
			switch {
			case form == 0 && p != "":
				return "ram:" + p
			case form == 1:
				return "ram:///" + p
			}
			return "ram:/" + p
		}
		vguard(t, "c18:memory", "memory store", func() {
			storeHistory(t, "c18:memory", rand.New(rand.NewSource(r.Int63())), ramdriver.NewDriver(), s, url)
		})
	}
	vcases("C18.memory", rounds)
}

func TestVerif_C18_File(t *testing.T) {
	r := vrand()
	rounds := 250
	if vthorough() {
		rounds = 5000
	}
	for k := 0; k < rounds; k++ {
		root, err := ioutil.TempDir("", "verif")
		if err != nil {
			t.Fatal(err)
		}
		s := &vstore{files: map[string][]byte{}, dirs: map[string]bool{}, early: true}
		form := k % 2
		url := func(p string) string {
			if form == 0 {
				return root + "/" + p
			}
			return "file://" + root + "/" + p
		}
		vguard(t, "c18:file", "file store", func() {
			storeHistory(t, "c18:file", rand.New(rand.NewSource(r.Int63())), &filedriver.Driver{}, s, url)
		})
		os.RemoveAll(root)
	}
	vcases("C18.file", rounds)
}

func TestVerif_C18_Data(t *testing.T) {
	r := vrand()
	n := 1500
	for k := 0; k < n; k++ {
		start := []string{"data:,", "data:application/octet-stream;base64,", "data:,ab%20c"}[k%3]
		want := []byte(nil)
		if k%3 == 2 {
			want = []byte("ab c")
		}
		w, err := storage.Create(start)
		if err != nil {
			vfail(t, "c18:data:create", "Create(%q) fails: %v", start, err)
			continue
		}
		hist := start + ":"
		aborted := false
		vguard(t, "c18:data", hist, func() {
			for q := r.Intn(6); q > 0; q-- {
				if r.Intn(12) == 0 {
					hist += " Abort"
					w.Abort()
					aborted = true
					continue
				}
				b := vcontent(r, r.Intn(9))
				hist += fmt.Sprintf(" Write(%x)", b)
				n, err := w.Write(b)
				if aborted {
					continue
				}
				if n != len(b) || err != nil {
					vfail(t, "c18:data:write", "%s returns %d, %v", hist, n, err)
				}
				want = append(want, b...)
			}
			ci, err := w.Commit()
			if aborted {
				if err == nil {
					vfail(t, "c18:data:aborted", "%s then Commit succeeds", hist)
				}
				return
			}
			if err != nil {
				vfail(t, "c18:data:commit", "%s then Commit fails: %v", hist, err)
				return
			}
			o, err := storage.Open(ci.ObjectURL())
			if err != nil {
				vfail(t, "c18:data:open", "%s: %v", hist, err)
				return
			}
			got, err := ioutil.ReadAll(o)
			if err != nil || !bytes.Equal(got, want) || o.Size() != int64(len(want)) {
				vfail(t, "c18:data:content", "%s: committed %x, read back %x, %v", hist, want, got, err)
			}
		})
	}
	vcases("C18.data", n)
}
