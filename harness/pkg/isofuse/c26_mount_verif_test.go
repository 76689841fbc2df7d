package isofuse

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"

	"github.com/jacobsa/fuse"
	"github.com/jacobsa/fuse/fuseops"
	"github.com/jacobsa/fuse/fuseutil"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
)

var errInjected = errors.New("injected failure")

// vfile is the content of one file of the image.
type vfile struct {
	path string
	data []byte
}

type vsrc struct {
	*bytes.Reader
	url  string
	size int64
}

func (v *vsrc) Close() error { return nil }
func (v *vsrc) URL() string  { return v.url }
func (v *vsrc) Size() int64  { return v.size }

type vimage struct {
	*bytes.Reader
	size int64
}

func (v *vimage) Close() error { return nil }
func (v *vimage) Size() int64  { return v.size }

// vopen is an opened extent.
type vopen struct {
	vsrc
	vol    *vvolume
	closed int
	fail   bool
}

func (o *vopen) Close() error {
	o.vol.mu.Lock()
	defer o.vol.mu.Unlock()
	o.closed++
	return nil
}

func (o *vopen) ReadAt(p []byte, off int64) (int, error) {
	o.vol.mu.Lock()
	c, f := o.closed, o.vol.fail
	o.vol.mu.Unlock()
	if c > 0 {
		return 0, os.ErrClosed
	}
	if f {
		return 0, errInjected
	}
	return o.vsrc.ReadAt(p, off)
}

type vvolume struct {
	img     []byte
	extents map[iso9660.LogicalBlockAddress][]byte
	mu      sync.Mutex
	opened  []*vopen
	fail    bool
}

func (v *vvolume) Image() storage.AnonymousObject {
	return &vimage{bytes.NewReader(v.img), int64(len(v.img))}
}

func (v *vvolume) OpenExtent(lba iso9660.LogicalBlockAddress) (storage.Object, error) {
	d, ok := v.extents[lba]
	if !ok {
		return nil, fmt.Errorf("no extent at %d", lba)
	}
	o := &vopen{vsrc: vsrc{bytes.NewReader(d), fmt.Sprintf("x:%d", lba), int64(len(d))}, vol: v}
	v.mu.Lock()
	v.opened = append(v.opened, o)
	v.mu.Unlock()
	return o, nil
}

type vnode struct {
	ino  fuseops.InodeID
	kids map[string]*vnode
	data []byte
	link string
	mode os.FileMode
}

// vbuild makes a volume and the tree it should show.
func vbuild(t *testing.T, r *rand.Rand) (*vvolume, *vnode, string) {
	vol := iso9660.NewNvidiaExtendedVolume()
	root := &vnode{kids: map[string]*vnode{}, mode: os.ModeDir}
	v := &vvolume{extents: map[iso9660.LogicalBlockAddress][]byte{}}
	type obj struct {
		n *vnode
		p string
	}
	var files []obj
	put := func(p string, leaf *vnode) {
		n := root
		parts := strings.Split(p[1:], "/")
		for i, s := range parts {
			if i == len(parts)-1 {
				n.kids[s] = leaf
				return
			}
			if n.kids[s] == nil {
				n.kids[s] = &vnode{kids: map[string]*vnode{}, mode: os.ModeDir}
			}
			n = n.kids[s]
		}
	}
	n := 1 + r.Intn(25)
	desc := ""
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("f%d", i)
		if r.Intn(4) == 0 {
			name += strings.Repeat("n", 60+r.Intn(150))
		}
		p := []string{"/", "/d/", "/d/e/", "/g/"}[r.Intn(4)] + name
		leaf := &vnode{}
		if r.Intn(5) == 0 {
			leaf.link = "target" + fmt.Sprint(i)
			leaf.mode = os.ModeSymlink
			if err := vol.AddSymlink(p, leaf.link); err != nil {
				t.Fatal(err)
			}
		} else {
			leaf.data = make([]byte, []int{0, 1, 100, 2048, 5000}[r.Intn(5)])
			r.Read(leaf.data)
			if err := vol.AddFile(p, &vsrc{bytes.NewReader(leaf.data), "x:" + p, int64(len(leaf.data))}); err != nil {
				t.Fatal(err)
			}
			files = append(files, obj{leaf, p})
		}
		put(p, leaf)
		desc += " " + p
	}
	var b bytes.Buffer
	if _, err := vol.WriteTo(&b); err != nil {
		t.Fatal(err)
	}
	v.img = b.Bytes()
	w := iso9660.NewWalker(v.Image())
	for _, f := range files {
		fi, err := w.Lstat(f.p)
		if err != nil {
			t.Fatal(err)
		}
		v.extents[fi.Extent()] = f.n.data
	}
	return v, root, "image with" + desc
}

type vdirent struct {
	name string
	ino  fuseops.InodeID
	off  fuseops.DirOffset
	typ  uint32
}

func vdirents(b []byte) []vdirent {
	var out []vdirent
	for len(b) >= 24 {
		n := binary.LittleEndian.Uint32(b[16:])
		e := vdirent{ino: fuseops.InodeID(binary.LittleEndian.Uint64(b)), off: fuseops.DirOffset(binary.LittleEndian.Uint64(b[8:])), typ: binary.LittleEndian.Uint32(b[20:])}
		e.name = string(b[24 : 24+n])
		out = append(out, e)
		b = b[(24+int(n)+7)/8*8:]
	}
	return out
}

func vmount(t *testing.T, v *vvolume) fuseutil.FileSystem {
	s, err := NewWithOptions("/nowhere", v, Options{})
	if err != nil {
		vfail(t, "c26:mount", "a server for the image cannot be made: %v", err)
		return nil
	}
	return s.fs
}

func TestVerif_C26_Histories(t *testing.T) {
	r := vrand()
	rounds := 60
	if vthorough() {
		rounds = 800
	}
	ctx := context.Background()
	steps := 0
	for k := 0; k < rounds; k++ {
		v, root, in := vbuild(t, r)
		fs := vmount(t, v)
		if fs == nil {
			return
		}
		vguard(t, "c26:history", in, func() {
			refs := map[fuseops.InodeID]uint64{}
			nodes := map[fuseops.InodeID]*vnode{1: root}
			names := map[*vnode]fuseops.InodeID{root: 1}
			type handle struct {
				n *vnode
				o *vopen
			}
			live := map[fuseops.HandleID]handle{}
			known := func(dir bool) fuseops.InodeID {
				var ids []int
				for i, n := range nodes {
					if refs[i] > 0 || i == 1 {
						if !dir || n.kids != nil {
							ids = append(ids, int(i))
						}
					}
				}
				sort.Ints(ids)
				return fuseops.InodeID(ids[r.Intn(len(ids))])
			}
			lookup := func(parent fuseops.InodeID, name string) {
				op := &fuseops.LookUpInodeOp{Parent: parent, Name: name}
				err := fs.LookUpInode(ctx, op)
				want := nodes[parent].kids[name]
				if want == nil {
					if err != fuse.ENOENT {
						vfail(t, "c26:lookup", "%s: looking up %q gives %v", in, name, err)
					}
					return
				}
				if err != nil {
					vfail(t, "c26:lookup", "%s: looking up %q fails: %v", in, name, err)
					return
				}
				ino := op.Entry.Child
				if ino <= 1 || names[want] != 0 && names[want] != ino || nodes[ino] != nil && nodes[ino] != want {
					vfail(t, "c26:inode", "%s: %q has inode %d, before %d", in, name, ino, names[want])
					return
				}
				names[want], nodes[ino] = ino, want
				refs[ino]++
				if op.Entry.Attributes.Mode&os.ModeType != want.mode || want.kids == nil && want.mode == 0 && op.Entry.Attributes.Size != uint64(len(want.data)) {
					vfail(t, "c26:attributes", "%s: %q has attributes %+v", in, name, op.Entry.Attributes)
				}
			}
			for s := 0; s < 150; s++ {
				steps++
				switch r.Intn(9) {
				case 0, 1, 2: // lookup
					p := known(true)
					var ks []string
					for n := range nodes[p].kids {
						ks = append(ks, n)
					}
					ks = append(ks, "missing")
					sort.Strings(ks)
					lookup(p, ks[r.Intn(len(ks))])
				case 3: // forget
					ino := known(false)
					if r.Intn(10) == 0 {
						ino = 1
					}
					n := uint64(1)
					if refs[ino] > 1 && r.Intn(2) == 0 {
						n = 1 + uint64(r.Intn(int(refs[ino])))
					}
					if err := fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: ino, N: n}); err != nil {
						vfail(t, "c26:forget", "%s: forgetting inode %d fails: %v", in, ino, err)
					}
					if ino != 1 {
						refs[ino] -= n
					}
				case 4: // attributes and links of any inode
					ino := known(false)
					if r.Intn(2) == 0 {
						for i := range nodes {
							if i > ino {
								ino = i
								break
							}
						}
					}
					n := nodes[ino]
					op := &fuseops.GetInodeAttributesOp{Inode: ino}
					err := fs.GetInodeAttributes(ctx, op)
					if refs[ino] > 0 || ino == 1 {
						if err != nil || op.Attributes.Mode&os.ModeType != n.mode || n.kids == nil && n.mode == 0 && op.Attributes.Size != uint64(len(n.data)) {
							vfail(t, "c26:resolve", "%s: inode %d with count %d: %v, %+v", in, ino, refs[ino], err, op.Attributes)
						}
						if n.mode == os.ModeSymlink {
							sl := &fuseops.ReadSymlinkOp{Inode: ino}
							if err := fs.ReadSymlink(ctx, sl); err != nil || sl.Target != n.link {
								vfail(t, "c26:symlink", "%s: the link reads %q, %v; want %q", in, sl.Target, err, n.link)
							}
						}
					} else if err == nil {
						vfail(t, "c26:forgotten", "%s: inode %d is still resolvable with count 0", in, ino)
					}
				case 5: // open
					ino := known(false)
					n := nodes[ino]
					if n.kids != nil || n.mode != 0 {
						continue
					}
					before := len(v.opened)
					op := &fuseops.OpenFileOp{Inode: ino}
					if err := fs.OpenFile(ctx, op); err != nil {
						vfail(t, "c26:open", "%s: opening inode %d fails: %v", in, ino, err)
						continue
					}
					if _, dup := live[op.Handle]; dup {
						vfail(t, "c26:handle", "%s: handle %d is given out twice", in, op.Handle)
						continue
					}
					if len(v.opened) != before+1 {
						vfail(t, "c26:open", "%s: %d extents are opened for one file", in, len(v.opened)-before)
						continue
					}
					live[op.Handle] = handle{n, v.opened[before]}
				case 6, 7: // read
					for h, x := range live {
						off := r.Intn(len(x.n.data) + 10)
						dst := make([]byte, r.Intn(3000))
						v.fail = r.Intn(8) == 0
						op := &fuseops.ReadFileOp{Handle: h, Offset: int64(off), Dst: dst}
						err := fs.ReadFile(ctx, op)
						var want []byte
						if off < len(x.n.data) {
							want = x.n.data[off:]
						}
						if len(want) > len(dst) {
							want = want[:len(dst)]
						}
						if v.fail {
							if err == nil {
								vfail(t, "c26:read-error", "%s: a failed read gives %d bytes and no error", in, op.BytesRead)
							}
						} else if err != nil || !bytes.Equal(dst[:op.BytesRead], want) {
							vfail(t, "c26:read", "%s: reading %d bytes at %d of %d through handle %d gives %d, %v", in, len(dst), off, len(x.n.data), h, op.BytesRead, err)
						}
						v.fail = false
						break
					}
				case 8: // release, also of handles that do not exist
					h := fuseops.HandleID(r.Intn(60))
					if r.Intn(2) == 0 {
						for x := range live {
							h = x
							break
						}
					}
					x, ok := live[h]
					var err error
					if !vguard(t, "c26:release", fmt.Sprintf("%s: releasing handle %d (live %v)", in, h, ok), func() {
						err = fs.ReleaseFileHandle(ctx, &fuseops.ReleaseFileHandleOp{Handle: h})
					}) {
						return
					}
					if ok {
						if err != nil || x.o.closed != 1 {
							vfail(t, "c26:release", "%s: releasing handle %d gives %v, closed %d times", in, h, err, x.o.closed)
						}
						delete(live, h)
					}
					if err := fs.ReadFile(ctx, &fuseops.ReadFileOp{Handle: h, Dst: make([]byte, 10)}); err == nil {
						vfail(t, "c26:released", "%s: handle %d can be read after its release", in, h)
					}
					for h2, x2 := range live {
						if x2.o.closed != 0 {
							vfail(t, "c26:others", "%s: releasing handle %d closes handle %d", in, h, h2)
						}
					}
				}
			}
			for _, ino := range []fuseops.InodeID{0, 1 << 20} {
				if fs.ForgetInode(ctx, &fuseops.ForgetInodeOp{Inode: ino, N: 1}) == nil || fs.OpenFile(ctx, &fuseops.OpenFileOp{Inode: ino}) == nil || fs.ReadDir(ctx, &fuseops.ReadDirOp{Inode: ino}) == nil {
					vfail(t, "c26:unknown", "%s: unknown inode %d is accepted", in, ino)
				}
			}
		})
	}
	vcases("C26.steps", steps)
}

func TestVerif_C26_Listing(t *testing.T) {
	r := vrand()
	rounds := 60
	if vthorough() {
		rounds = 800
	}
	ctx := context.Background()
	for k := 0; k < rounds; k++ {
		v, root, in := vbuild(t, r)
		fs := vmount(t, v)
		if fs == nil {
			return
		}
		vguard(t, "c26:listing", in, func() {
			var walk func(ino fuseops.InodeID, n *vnode)
			walk = func(ino fuseops.InodeID, n *vnode) {
				var want []string
				for s := range n.kids {
					want = append(want, s)
				}
				sort.Strings(want)
				for _, size := range []int{65536, 300, 1000, 4096} {
					var got []vdirent
					off := fuseops.DirOffset(0)
					for i := 0; ; i++ {
						op := &fuseops.ReadDirOp{Inode: ino, Offset: off, Dst: make([]byte, size)}
						if err := fs.ReadDir(ctx, op); err != nil {
							vfail(t, "c26:readdir", "%s: listing inode %d at %d fails: %v", in, ino, off, err)
							return
						}
						es := vdirents(op.Dst[:op.BytesRead])
						if len(es) == 0 {
							break
						}
						if r.Intn(2) == 0 && len(es) > 1 { // take only some of them
							es = es[:1+r.Intn(len(es)-1)]
						}
						got = append(got, es...)
						off = es[len(es)-1].off
						if i > 1000 {
							vfail(t, "c26:endless", "%s: listing inode %d does not end", in, ino)
							return
						}
					}
					var names []string
					for _, e := range got {
						if e.name == "." || e.name == ".." {
							continue
						}
						names = append(names, e.name)
						kid := n.kids[e.name]
						if kid == nil {
							continue
						}
						wt := uint32(8)
						if kid.kids != nil {
							wt = 4
						} else if kid.mode == os.ModeSymlink {
							wt = 10
						}
						if e.typ != wt {
							vfail(t, "c26:type", "%s: %q is listed with type %d", in, e.name, e.typ)
						}
						lk := &fuseops.LookUpInodeOp{Parent: ino, Name: e.name}
						if err := fs.LookUpInode(ctx, lk); err != nil || lk.Entry.Child != e.ino {
							vfail(t, "c26:listed-inode", "%s: %q is listed as inode %d and looked up as %d, %v", in, e.name, e.ino, lk.Entry.Child, err)
						}
						kid.ino = e.ino
					}
					sort.Strings(names)
					if fmt.Sprint(names) != fmt.Sprint(want) {
						vfail(t, "c26:names", "%s: a listing in pieces of %d bytes gives %q, want %q", in, size, names, want)
					}
				}
				for _, kid := range n.kids {
					if kid.kids != nil {
						walk(kid.ino, kid)
					}
				}
			}
			walk(1, root)
		})
	}
	vcases("C26.listings", rounds)
}

var _ = io.EOF
