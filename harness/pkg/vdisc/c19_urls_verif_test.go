package vdisc_test

import (
	"fmt"
	"io/ioutil"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/caching"
	"github.com/NVIDIA/vdisc/pkg/iso9660"
	"github.com/NVIDIA/vdisc/pkg/vdisc"
)

func vkey(r *rand.Rand, alphabet []rune, pool []string) string {
	var b []rune
	if len(pool) > 0 && r.Intn(2) == 0 {
		p := []rune(pool[r.Intn(len(pool))])
		b = append(b, p[:r.Intn(len(p)+1)]...)
	}
	for n := r.Intn(5); n > 0; n-- {
		b = append(b, alphabet[r.Intn(len(alphabet))])
	}
	return string(b)
}

func TestVerif_C19_Table(t *testing.T) {
	r := vrand()
	rounds := 6000
	if vthorough() {
		rounds = 100000
	}
	alphabets := [][]rune{[]rune("ab"), []rune("aé世b"), []rune("http:/.x"), []rune("eèéế"), {'\x00', 'a', 0x10FFFF, 0xFFFD}}
	for k := 0; k < rounds; k++ {
		al := alphabets[k%len(alphabets)]
		var keys []string
		for n := 1 + r.Intn(12); n > 0; n-- {
			keys = append(keys, vkey(r, al, keys))
		}
		if k%50 == 0 {
			for n := 300; n > 0; n-- {
				keys = append(keys, vkey(r, al, keys))
			}
		}
		in := fmt.Sprintf("keys %q", keys)
		vguard(t, "c19:table", in, func() {
			m := vdisc.NewTrieMap()
			want := map[string]iso9660.LogicalBlockAddress{}
			for i, s := range keys {
				v := iso9660.LogicalBlockAddress(i * 3)
				m.Put(s, v)
				want[s] = v
				for s2, w := range want {
					if len(want) > 20 && r.Intn(20) != 0 {
						continue
					}
					if got, ok := m.Get(s2); !ok || got != w {
						vfail(t, "c19:get", "%s: after %d insertions %q gives %d %v, want %d", in, i+1, s2, got, ok, w)
						return
					}
				}
			}
			for n := 0; n < 10; n++ {
				s := vkey(r, al, keys)
				_, has := want[s]
				if _, ok := m.Get(s); ok != has {
					vfail(t, "c19:get-absent", "%s: %q found %v, present %v", in, s, ok, has)
				}
			}
			branches, leaves := m.Invert()
			if len(leaves) != len(want) {
				vfail(t, "c19:leaves", "%s: %d leaves for %d distinct keys", in, len(leaves), len(want))
			}
			if branches[0].Parent != 0 || branches[0].Content != "" {
				vfail(t, "c19:root", "%s: the first branch is %+v", in, branches[0])
			}
			for s, v := range want {
				leaf, ok := leaves[v]
				if !ok {
					vfail(t, "c19:leaf", "%s: no leaf for %q", in, s)
					continue
				}
				got := leaf.Content
				p, steps := leaf.Parent, 0
				for {
					if p < 0 || p >= len(branches) || steps > len(branches) {
						vfail(t, "c19:chain", "%s: the chain of %q leaves the table at %d", in, s, p)
						break
					}
					got = branches[p].Content + got
					if branches[p].Parent == p {
						break
					}
					p = branches[p].Parent
					steps++
				}
				if got != s {
					vfail(t, "c19:resolve", "%s: %q resolves to %q", in, s, got)
				}
			}
		})
	}
	vcases("C19.tables", rounds)
}

func TestVerif_C19_Images(t *testing.T) {
	r := vrand()
	rounds := 120
	if vthorough() {
		rounds = 1500
	}
	base := []string{"vobj://h/", "vobj://h/a", "vother://h/a/b", "vobj:opaque", "vobj://h/a/../b", "vobj://h/a%2Fb?x=y/z&q=%20", "vobj://h/é", "vobj://h//x", "vobj://h/./", "vobj://u:p@h:80/a"}
	for k := 0; k < rounds; k++ {
		dir, err := ioutil.TempDir("", "verif")
		if err != nil {
			t.Fatal(err)
		}
		n := 1 + r.Intn(8)
		if k%20 == 0 {
			n = 150
		}
		var urls []string
		for i := 0; i < n; i++ {
			switch {
			case i > 0 && r.Intn(4) == 0:
				urls = append(urls, urls[r.Intn(i)])
			case i > 0 && r.Intn(2) == 0:
				urls = append(urls, urls[r.Intn(i)]+string("ab/c0"[r.Intn(5)]))
			default:
				urls = append(urls, base[r.Intn(len(base))])
			}
		}
		in := fmt.Sprintf("files with URLs %q", urls)
		vguard(t, "c19:image", in, func() {
			b := vdisc.NewExtendedISO9660Builder(vdisc.BuilderConfig{URL: filepath.Join(dir, "x.vdisc")})
			perm := r.Perm(n)
			for _, i := range perm {
				if err := b.AddFile(fmt.Sprintf("/d%d/f%d", i%3, i), urls[i], int64(r.Intn(5000))); err != nil {
					vfail(t, "c19:add", "%s: %v", in, err)
					return
				}
			}
			u, err := b.Build()
			if err != nil {
				vfail(t, "c19:build", "%s: %v", in, err)
				return
			}
			v, err := vdisc.Load(u, caching.NopCache)
			if err != nil {
				vfail(t, "c19:load", "%s: %v", in, err)
				return
			}
			defer v.Close()
			w := iso9660.NewWalker(v.Image())
			for i, want := range urls {
				name := fmt.Sprintf("/d%d/f%d", i%3, i)
				fi, err := w.Lstat(name)
				if err != nil {
					vfail(t, "c19:stat", "%s: %s: %v", in, name, err)
					continue
				}
				got, err := v.ExtentURL(fi.Extent())
				if err != nil || got != want {
					vfail(t, "c19:extent", "%s: the extent of %s resolves to %q (%v), want %q", in, name, got, err, want)
				}
			}
		})
		os.RemoveAll(dir)
	}
	vcases("C19.images", rounds)
}

var _ = []interface{}{sort.Strings, strings.Repeat}
