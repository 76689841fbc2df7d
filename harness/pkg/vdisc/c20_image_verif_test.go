package vdisc_test

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/storage"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
)

type vfile struct {
	path, url string
	size      int64
}

func TestVerif_C20_Images(t *testing.T) {
	r := vrand()
	rounds := 60
	if vthorough() {
		rounds = 600
	}
	home, _ := os.Getwd()
	defer os.Chdir(home)
	sizes := []int64{0, 0, 1, 2047, 2048, 2049, 4095, 4096, 4097, 100, 6144, 10000}
	huge := []int64{1 << 32, 1<<32 - 2048, 1<<32 - 1, 3 << 32, 1<<33 + 2049}
	names := []string{"x.vdisc", "a b.vdisc", "a:b.vdisc", "é.vdisc", "q%25.vdisc", "sub/dir/x.vdisc"}
	for k := 0; k < rounds; k++ {
		dir, err := ioutil.TempDir("", "verif")
		if err != nil {
			t.Fatal(err)
		}
		os.Chdir(dir)
		var files []vfile
		n := r.Intn(9)
		if k%25 == 0 {
			n = 200
		}
		for i := 0; i < n; i++ {
			f := vfile{fmt.Sprintf("/d%d/s/f%d", r.Intn(4), i), fmt.Sprintf("vobj://h/%d", i), sizes[r.Intn(len(sizes))]}
			if r.Intn(5) == 0 {
				f.path = fmt.Sprintf("/f%d", i)
			}
			if r.Intn(6) == 0 {
				f.size = int64(r.Intn(20000))
			}
			if k%6 == 5 && r.Intn(3) == 0 {
				f.size = huge[r.Intn(len(huge))]
			}
			if i > 0 && r.Intn(8) == 0 { // the same object under two names
				o := files[r.Intn(i)]
				f.url, f.size = o.url, o.size
			}
			files = append(files, f)
		}
		name := names[k%len(names)]
		url := dir + "/" + name
		switch r.Intn(3) {
		case 0:
			url = "file://" + url
		case 1:
			url = name
			if name == "a:b.vdisc" {
				url = "./" + name
			}
		}
		in := fmt.Sprintf("vdisc %q with %v", url, files)
		if len(in) > 900 {
			in = in[:900] + "..."
		}
		vguard(t, "c20:image", in, func() {
			var b vdisc.Builder
			if r.Intn(2) == 0 {
				b = vdisc.NewPosixPortableISO9660Builder(vdisc.BuilderConfig{URL: url})
			} else {
				b = vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: url})
			}
			b.SetVolumeIdentifier("VOL")
			for _, f := range files {
				if err := b.AddFile(f.path, f.url, f.size); err != nil {
					vfail(t, "c20:add", "%s: %v", in, err)
					return
				}
				// a refused name must not count as a file
				if r.Intn(6) == 0 {
					if err := b.AddFile(f.path, f.url, f.size); err == nil {
						vfail(t, "c20:twice", "%s: %q can be added twice", in, f.path)
						return
					}
				}
			}
			if r.Intn(2) == 0 {
				if err := b.AddSymlink("/link", "d0"); err != nil {
					vfail(t, "c20:link", "%s: %v", in, err)
				}
			}
			out, err := b.Build()
			if err != nil {
				vfail(t, "c20:build", "%s: %v", in, err)
				return
			}
			v, err := vdisc.Load(out, caching.NopCache)
			if err != nil {
				vfail(t, "c20:load", "%s: loading %q: %v", in, out, err)
				return
			}
			defer v.Close()
			check(t, in, v, filepath.Join(dir, mustPath(name)), files)
			v2, err := vdisc.Load(url, caching.NopCache)
			if err != nil {
				vfail(t, "c20:load", "%s: loading %q: %v", in, url, err)
				return
			}
			defer v2.Close()
			check(t, in+" loaded by the URL it was built with", v2, filepath.Join(dir, mustPath(name)), files)
		})
		os.Chdir(home)
		os.RemoveAll(dir)
	}
	vcases("C20.images", rounds)
}

func mustPath(name string) string {
	if name == "q%25.vdisc" {
		return "q%.vdisc"
	}
	return name
}

func check(t *testing.T, in string, v vdisc.VDisc, file string, files []vfile) {
	if v.BlockSize() != 2048 || v.FsType() != "iso9660" {
		vfail(t, "c20:kind", "%s: block size %d, type %q", in, v.BlockSize(), v.FsType())
	}
	hdr, err := ioutil.ReadFile(file + ".isohdr")
	if err != nil {
		vfail(t, "c20:metadata", "%s: %v", in, err)
		return
	}
	img := v.Image()
	total := int64((len(hdr) + 2047) / 2048 * 2048)
	for _, f := range files {
		s := (f.size + 2047) / 2048
		if s == 0 {
			s = 1
		}
		total += s * 2048
	}
	if img.Size() != total {
		vfail(t, "c20:size", "%s: the image has %d bytes, the metadata and files take %d", in, img.Size(), total)
		return
	}
	got := make([]byte, len(hdr))
	if n, err := img.ReadAt(got, 0); n != len(hdr) || !bytes.Equal(got, hdr) {
		vfail(t, "c20:metadata", "%s: the image does not start with its metadata (%d, %v)", in, n, err)
		return
	}
	starts := map[iso9660.LogicalBlockAddress]vfile{}
	w := iso9660.NewWalker(img)
	for _, f := range files {
		fi, err := w.Lstat(f.path)
		if err != nil {
			vfail(t, "c20:stat", "%s: %s: %v", in, f.path, err)
			return
		}
		if fi.Size() != f.size {
			vfail(t, "c20:stat", "%s: %s has size %d in the image, want %d", in, f.path, fi.Size(), f.size)
		}
		if o, dup := starts[fi.Extent()]; dup {
			vfail(t, "c20:shared", "%s: %s and %s both start at %d", in, f.path, o.path, fi.Extent())
		}
		starts[fi.Extent()] = f
		// content and padding as seen in the image
		base := int64(fi.Extent()) * 2048
		span := (f.size + 2047) / 2048 * 2048
		if span == 0 {
			span = 2048
		}
		chunk := span
		var offs []int64
		if span > 65536 {
			chunk = 5000
			offs = []int64{0, 1<<32 - 2500, span/2 - 1, span - 5000}
		} else {
			offs = []int64{0}
		}
		for _, o := range offs {
			if o < 0 || o+chunk > span {
				continue
			}
			p := make([]byte, chunk)
			n, err := img.ReadAt(p, base+o)
			if n != len(p) {
				vfail(t, "c20:read", "%s: reading %s at %d gives %d of %d bytes: %v", in, f.path, o, n, len(p), err)
				continue
			}
			for i := range p {
				want := byte(0)
				if o+int64(i) < f.size {
					want = vbyte(f.url, o+int64(i))
				}
				if p[i] != want {
					vfail(t, "c20:bytes", "%s: byte %d of %s (size %d) is %#x in the image, want %#x", in, o+int64(i), f.path, f.size, p[i], want)
					break
				}
				if len(p) > 6000 && i > 50 && i < len(p)-2100 {
					i += 17
				}
			}
		}
		obj, err := v.OpenExtent(fi.Extent())
		if err != nil {
			vfail(t, "c20:extent", "%s: opening the extent of %s: %v", in, f.path, err)
			continue
		}
		if obj.URL() != f.url || obj.Size() != f.size {
			vfail(t, "c20:extent", "%s: the extent of %s is %q of size %d, want %q of size %d", in, f.path, obj.URL(), obj.Size(), f.url, f.size)
		}
		if f.size > 0 && f.size < 65536 {
			b, err := ioutil.ReadAll(obj)
			ok := err == nil && int64(len(b)) == f.size
			for i := range b {
				ok = ok && b[i] == vbyte(f.url, int64(i))
			}
			if !ok {
				vfail(t, "c20:extent-bytes", "%s: the extent of %s reads %d of %d bytes: %v", in, f.path, len(b), f.size, err)
			}
		}
		obj.Close()
	}
	meta, err := v.OpenExtent(0)
	if err != nil || meta.Size() != int64(len(hdr)) {
		vfail(t, "c20:metaextent", "%s: the first extent: %v", in, err)
	} else {
		o, err := storage.Open(meta.URL())
		if err != nil {
			vfail(t, "c20:metaurl", "%s: the metadata URL %q does not open: %v", in, meta.URL(), err)
		} else {
			o.Close()
		}
	}
	if total < 1<<24 {
		for lba := iso9660.LogicalBlockAddress(1); int64(lba) <= total/2048+1; lba++ {
			if _, ok := starts[lba]; ok {
				continue
			}
			if _, err := v.OpenExtent(lba); err == nil {
				vfail(t, "c20:noextent", "%s: address %d opens although no extent starts there", in, lba)
				break
			}
			if _, err := v.ExtentURL(lba); err == nil {
				vfail(t, "c20:noextent", "%s: address %d has a URL although no extent starts there", in, lba)
				break
			}
		}
	}
}

// Files that live beside the vdisc, named by absolute paths, whatever way the
// vdisc itself is named.
func TestVerif_C20_Local(t *testing.T) {
	home, _ := os.Getwd()
	defer os.Chdir(home)
	n := 0
	for _, name := range []string{"x.vdisc", "sub/x.vdisc", "./x.vdisc", "sub/../x.vdisc"} {
		for _, form := range []string{"", "abs", "file"} {
			dir, err := ioutil.TempDir("", "verif")
			if err != nil {
				t.Fatal(err)
			}
			os.Chdir(dir)
			os.Mkdir(filepath.Join(dir, "sub"), 0755)
			want := []byte("content of a local file")
			ioutil.WriteFile(filepath.Join(dir, "data.bin"), want, 0644)
			url := name
			if form != "" {
				url = dir + "/" + name
			}
			if form == "file" {
				url = "file://" + url
			}
			in := fmt.Sprintf("local file in vdisc %q", url)
			vguard(t, "c20:local", in, func() {
				for _, u := range []string{dir + "/data.bin", "file://" + dir + "/data.bin"} {
					b := vdisc.NewISO9660Builder(vdisc.BuilderConfig{URL: url})
					if err := b.AddFile("/f", u, int64(len(want))); err != nil {
						vfail(t, "c20:local", "%s: %v", in, err)
						return
					}
					if _, err := b.Build(); err != nil {
						vfail(t, "c20:local", "%s: %v", in, err)
						return
					}
					v, err := vdisc.Load(url, caching.NopCache)
					if err != nil {
						vfail(t, "c20:local", "%s: %v", in, err)
						return
					}
					fi, err := iso9660.NewWalker(v.Image()).Lstat("/f")
					if err != nil {
						vfail(t, "c20:local", "%s: %v", in, err)
						return
					}
					o, err := v.OpenExtent(fi.Extent())
					if err != nil {
						vfail(t, "c20:local", "%s: %v", in, err)
						return
					}
					got, err := ioutil.ReadAll(o)
					if err != nil || !bytes.Equal(got, want) {
						vfail(t, "c20:local", "%s: file %q reads %q from %q: %v", in, u, got, o.URL(), err)
					}
					v.Close()
					n++
				}
			})
			os.Chdir(home)
			os.RemoveAll(dir)
		}
	}
	vcases("C20.local", n)
}
