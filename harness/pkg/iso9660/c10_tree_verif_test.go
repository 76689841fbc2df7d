package iso9660_test

import (
	"bytes"
	"fmt"
	"path"
	"strings"
	"testing"
	"unicode"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

func validPosix(s string) bool {
	for _, c := range s {
		if !(c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' || c >= '0' && c <= '9' || c == '_' || c == '-' || c == '.') {
			return false
		}
	}
	return true
}

func validExtended(s string) bool {
	for _, c := range s {
		if strings.ContainsRune("/\\?%*:|\"<> \n\t$!", c) || !unicode.IsPrint(c) {
			return false
		}
	}
	return true
}

type countInode struct {
	n   int64
	max int64
}

func (c *countInode) Next() (iso9660.InodeNumber, error) {
	if c.n >= c.max {
		return 0, iso9660.ErrInodesExhausted
	}
	c.n++
	return iso9660.InodeNumber(c.n), nil
}

func TestVerif_C10_Children(t *testing.T) {
	r := vrand()
	n := 300
	if vthorough() {
		n = 3000
	}
	pool := []string{"", ".", "..", "...", "a", "A", "b", "ab", "a/b", "a b", "a\x00", "é", "世", "a\n", "x\\y", "$", "!", "%", "~", "a:b", "​", "\x7f", "*", "?", "|", "<", ">", "\"", "-", "_", "a.b", ".a", "a.", "\t", "#", "=", "+", "@", ",", ";", "'", "`", "{", "(", "0"}
	steps := 0
	for k := 0; k < n; k++ {
		ext := k%2 == 1
		valid, val := validPosix, iso9660.NameValidator(iso9660.NewPosixPortableNameValidator())
		if ext {
			valid, val = validExtended, iso9660.NewNvidiaExtendedNameValidator()
		}
		ia := iso9660.NewInodeAllocator()
		dir, err := iso9660.NewDirectoryInode(ia, val)
		if err != nil {
			vfail(t, "c10:new", "%v", err)
			continue
		}
		inos := map[iso9660.InodeNumber]bool{dir.InodeNumber(): true}
		model := map[string]iso9660.Inode{}
		var hist []string
		for i := r.Intn(200); i > 0; i-- {
			steps++
			name := pool[r.Intn(len(pool))]
			switch r.Intn(4) {
			case 0:
				name = vname(r, true)
			case 1:
				name = fmt.Sprint(r.Intn(40))
			case 2:
				name += pool[r.Intn(len(pool))]
			}
			var child iso9660.Inode
			switch r.Intn(3) {
			case 0:
				child, err = iso9660.NewDirectoryInode(ia, val)
			case 1:
				child, err = iso9660.NewSymlinkInode(ia, "t")
			default:
				child, err = iso9660.NewFileInode(ia, &vobj{url: "v:"})
			}
			if err != nil || inos[child.InodeNumber()] {
				vfail(t, "c10:inode", "inode %d given twice or error %v", child.InodeNumber(), err)
				break
			}
			inos[child.InodeNumber()] = true
			hist = append(hist, fmt.Sprintf("%.30q", name))
			in := fmt.Sprintf("AddChild(%.60q) after %s", name, strings.Join(hist[:len(hist)-1], ","))
			_, dup := model[name]
			want := name != "" && name != "." && name != ".." && valid(name) && !dup
			if !vguard(t, "c10", in, func() { err = dir.AddChild(name, child) }) {
				break
			}
			if (err == nil) != want {
				vfail(t, "c10:accept", "%s (extended %v) gives %v", in, ext, err)
				break
			}
			if want {
				model[name] = child
			}
			bad := false
			for _, q := range append(append([]string(nil), pool...), name) {
				c, ok := dir.GetChild(q)
				w, has := model[q]
				if ok != has || ok && c != w {
					vfail(t, "c10:lookup", "%s: looking up %q gives %v, %v", in, q, c, ok)
					bad = true
					break
				}
			}
			if bad {
				break
			}
		}
		// the directory holds exactly the model
		seen := map[string]bool{}
		idents := map[string]bool{}
		visit := func(rel iso9660.Relationship) error {
			if rel.Parent != dir || rel.Child == iso9660.Inode(dir) {
				return nil
			}
			if model[rel.Name] != rel.Child || seen[rel.Name] {
				vfail(t, "c10:members", "%q is not what was added under that name", rel.Name)
			}
			if idents[rel.Identifier] || len(rel.Identifier) > 30 || rel.Identifier == "" {
				vfail(t, "c10:identifier", "identifier %q of %q", rel.Identifier, rel.Name)
			}
			idents[rel.Identifier] = true
			seen[rel.Name] = true
			return nil
		}
		dir.VisitDirectories(visit)
		dir.VisitFiles(visit)
		subdirs := uint32(0)
		for name, c := range model {
			if c.Type() == iso9660.InodeTypeDirectory {
				subdirs++
			}
			if !seen[name] && c.Type() != iso9660.InodeTypeSymlink {
				vfail(t, "c10:members", "%q was added and is not visited", name)
			}
		}
		if dir.Nlink() != 2+subdirs {
			vfail(t, "c10:nlink", "link count %d with %d subdirectories", dir.Nlink(), subdirs)
		}
	}
	vcases("C10.additions", steps)
}

func TestVerif_C10_Identifiers(t *testing.T) {
	n := 400000
	if vthorough() {
		n = 3000000
	}
	a := iso9660.NewIdentifierAllocator()
	seen := make(map[string]int32, n)
	for i := 0; i < n; i++ {
		s := a.Next()
		if j, ok := seen[s]; ok {
			vfail(t, "c10:identifier", "identifiers %d and %d are both %q", j, i, s)
			break
		}
		if len(s) == 0 || len(s) > 28 || strings.Trim(s, dChars) != "" {
			vfail(t, "c10:identifier", "identifier %d is %q", i, s)
			break
		}
		seen[s] = int32(i)
	}
	vcases("C10.identifiers", n)
	ia := iso9660.NewInodeAllocator()
	last := iso9660.InodeNumber(0)
	for i := 0; i < n; i++ {
		x, err := ia.Next()
		if err != nil || x <= last {
			vfail(t, "c10:inode", "inode %d after %d, %v", x, last, err)
			break
		}
		last = x
	}
	// exhaustion of any allocator is passed on
	c := &countInode{max: 3}
	if _, err := iso9660.NewDirectoryInode(c, iso9660.NewPosixPortableNameValidator()); err != nil {
		vfail(t, "c10:exhausted", "%v", err)
	}
	c.n = 3
	_, e1 := iso9660.NewDirectoryInode(c, iso9660.NewPosixPortableNameValidator())
	_, e2 := iso9660.NewFileInode(c, &vobj{})
	_, e3 := iso9660.NewSymlinkInode(c, "t")
	if e1 == nil || e2 == nil || e3 == nil {
		vfail(t, "c10:exhausted", "exhaustion is not reported: %v %v %v", e1, e2, e3)
	}
}

func TestVerif_C10_Volume(t *testing.T) {
	r := vrand()
	n := 300
	if vthorough() {
		n = 2000
	}
	segs := []string{"a", "b", "c", "..", ".", "", "x y", "d.e", "long" + strings.Repeat("l", 300)}
	steps := 0
	for k := 0; k < n; k++ {
		v := iso9660.NewVolume()
		root := newDir()
		var hist []string
		for i := r.Intn(25); i > 0; i-- {
			steps++
			var p []string
			for j := 1 + r.Intn(4); j > 0; j-- {
				p = append(p, segs[r.Intn(len(segs))])
			}
			s := strings.Join(p, "/")
			if r.Intn(2) == 0 {
				s = "/" + s
			}
			in := fmt.Sprintf("adding %.60q after %v", s, hist)
			hist = append(hist, fmt.Sprintf("%.40q", s))
			c := strings.TrimPrefix(path.Clean(s), "/")
			ok := true
			for _, q := range strings.Split(c, "/") {
				if q == "" || q == "." || q == ".." || !validPosix(q) {
					ok = false
				}
			}
			if ok {
				for q := path.Dir(c); q != "."; q = path.Dir(q) {
					if x := root.find(q); x != nil && x.kind != 'd' {
						ok = false
					}
				}
				ok = ok && root.find(c) == nil
			}
			var err error
			leaf := &vnode{kind: 'f', obj: &vobj{size: int64(steps), url: "v:"}}
			sym := r.Intn(2) == 0
			if !vguard(t, "c10", in, func() {
				if sym {
					leaf = &vnode{kind: 'l', target: "t"}
					err = v.AddSymlink(s, "t")
				} else {
					err = v.AddFile(s, leaf.obj)
				}
			}) {
				break
			}
			if (err == nil) != ok {
				vfail(t, "c10:volume", "%s gives %v", in, err)
				break
			}
			// directories leading to a refused entry may remain
			if ok {
				root.add(c, leaf)
			} else {
				var d []string
				for _, q := range strings.Split(c, "/")[:strings.Count(c, "/")] {
					if q == "" || q == "." || q == ".." || !validPosix(q) {
						break
					}
					d = append(d, q)
					x := root.find(strings.Join(d, "/"))
					if x != nil && x.kind != 'd' {
						break
					}
					if x == nil {
						root.add(strings.Join(d, "/"), newDir())
					}
				}
			}
		}
		var buf bytes.Buffer
		if _, err := v.WriteMetadataTo(&buf); err != nil {
			vfail(t, "c10:write", "%v after %v", err, hist)
			continue
		}
		m := vimg{buf.Bytes()}
		p, _ := m.pvd()
		tree, _, err := m.readTree(p)
		if err != nil {
			vfail(t, "c10:read", "%v after %v", err, hist)
			continue
		}
		inos := map[uint32]string{}
		var cmp func(d *vfound, n *vnode, at string)
		cmp = func(d *vfound, n *vnode, at string) {
			seen := map[string]bool{}
			for _, f := range d.dir {
				x := n.kids[f.name]
				if x == nil || x.kind != f.kind || seen[f.name] || x.kind == 'f' && x.obj.size != f.size {
					vfail(t, "c10:image", "%s/%.40s is wrong in the image of %v", at, f.name, hist)
					continue
				}
				if o, dup := inos[f.ino]; dup {
					vfail(t, "c10:inode", "%s and %s/%.40s share inode %d after %v", o, at, f.name, f.ino, hist)
				}
				inos[f.ino] = at + "/" + f.name
				seen[f.name] = true
				if f.kind == 'd' {
					cmp(f, x, at+"/"+f.name)
				}
			}
			for name, x := range n.kids {
				if !seen[name] && !(x.kind == 'd' && len(x.kids) == 0) {
					vfail(t, "c10:image", "%s/%.40s is missing in the image of %v", at, name, hist)
				}
			}
		}
		cmp(tree, root, "")
	}
	vcases("C10.volumes", steps)
}
