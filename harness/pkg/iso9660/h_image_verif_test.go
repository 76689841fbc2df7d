package iso9660_test

// An independent reader of ISO 9660 / Rock Ridge images, written from the
// standards and used as oracle, plus a generator of trees.

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"path"
	"sort"
	"strings"
	"testing"

	"github.com/NVIDIA/vdisc/pkg/iso9660"
)

// vobj is an object of any size with computed content.
type vobj struct {
	size int64
	seed byte
	url  string
	pos  int64
	fail int64 // reads fail from this offset plus one on, if > 0
	lie  int64 // content ends at this offset plus one although the size says otherwise, if > 0
}

func (o *vobj) at(i int64) byte { return byte(i*7+i>>8) ^ o.seed }

var errVobj = errors.New("injected read failure")

func (o *vobj) ReadAt(p []byte, off int64) (int, error) {
	n := 0
	for n < len(p) {
		if off+int64(n) >= o.size || o.lie > 0 && off+int64(n) >= o.lie-1 {
			return n, io.EOF
		}
		if o.fail > 0 && off+int64(n) >= o.fail-1 {
			return n, errVobj
		}
		p[n] = o.at(off + int64(n))
		n++
	}
	return n, nil
}

func (o *vobj) Read(p []byte) (int, error) {
	n, err := o.ReadAt(p, o.pos)
	o.pos += int64(n)
	return n, err
}

func (o *vobj) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += o.pos
	case io.SeekEnd:
		off += o.size
	}
	o.pos = off
	return off, nil
}
func (o *vobj) Close() error { return nil }
func (o *vobj) Size() int64  { return o.size }
func (o *vobj) URL() string  { return o.url }

// vimg is an image held in memory; reads past its end give zeroes.
type vimg struct{ b []byte }

func (m vimg) ReadAt(p []byte, off int64) (int, error) {
	for i := range p {
		p[i] = 0
		if x := off + int64(i); x >= 0 && x < int64(len(m.b)) {
			p[i] = m.b[x]
		}
	}
	return len(p), nil
}

func (m vimg) sector(lba uint32, n int64) []byte {
	p := make([]byte, n)
	m.ReadAt(p, int64(lba)*2048)
	return p
}

// ---- expected tree ----

type vnode struct {
	kind   byte // 'd', 'f', 'l'
	obj    *vobj
	target string
	kids   map[string]*vnode
}

func (n *vnode) find(p string) *vnode {
	for _, s := range strings.Split(path.Clean("/" + p)[1:], "/") {
		if s == "" {
			continue
		}
		if n == nil || n.kind != 'd' {
			return nil
		}
		n = n.kids[s]
	}
	return n
}

func (n *vnode) each(p string, f func(p string, n *vnode)) {
	f(p, n)
	var ks []string
	for k := range n.kids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n.kids[k].each(path.Join(p, k), f)
	}
}

func newDir() *vnode { return &vnode{kind: 'd', kids: map[string]*vnode{}} }

func (n *vnode) add(p string, leaf *vnode) bool {
	parts := strings.Split(path.Clean("/" + p)[1:], "/")
	for i, s := range parts {
		if i == len(parts)-1 {
			if _, ok := n.kids[s]; ok || s == "" {
				return false
			}
			n.kids[s] = leaf
			return true
		}
		k, ok := n.kids[s]
		if !ok {
			k = newDir()
			n.kids[s] = k
		}
		if k.kind != 'd' {
			return false
		}
		n = k
	}
	return false
}

const vposix = "ABCXYZabcxyz0189_-."

func vname(r *rand.Rand, ext bool) string {
	var n int
	switch r.Intn(8) {
	case 0:
		n = 200 + r.Intn(60)
	case 1:
		n = 245 + r.Intn(12)
	case 2:
		n = 490 + r.Intn(30)
	case 3:
		n = 1 + r.Intn(3)
	case 4:
		n = 100 + r.Intn(30)
	default:
		n = 1 + r.Intn(20)
	}
	if r.Intn(40) == 0 {
		n = 2000 + r.Intn(600)
	}
	var b strings.Builder
	uni := []rune("aé=世界#~ß+🙂@,")
	for b.Len() < n {
		if ext && r.Intn(3) == 0 {
			b.WriteRune(uni[r.Intn(len(uni))])
		} else {
			b.WriteByte(vposix[r.Intn(len(vposix))])
		}
	}
	s := b.String()
	if s == "." || s == ".." {
		return "q"
	}
	return s
}

func vtarget(r *rand.Rand) string {
	var parts []string
	for i := 1 + r.Intn(5); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			parts = append(parts, "..")
		case 1:
			parts = append(parts, ".")
		case 2:
			parts = append(parts, strings.Repeat("z", 240+r.Intn(20)))
		case 3:
			parts = append(parts, strings.Repeat("y", 490+r.Intn(20)))
		default:
			parts = append(parts, vname(r, false))
		}
	}
	s := strings.Join(parts, "/")
	if r.Intn(4) == 0 {
		s = "/" + s
	}
	if r.Intn(30) == 0 {
		s = []string{"/", ".", "..", "/..", "../..", "a/.."}[r.Intn(6)]
	}
	return s
}

// vtree builds a volume and its expected tree. big allows file sizes beyond one extent.
func vtree(r *rand.Rand, ext, big bool) (*iso9660.Volume, *vnode, string) {
	var v *iso9660.Volume
	if ext {
		v = iso9660.NewNvidiaExtendedVolume()
	} else {
		v = iso9660.NewPosixPortableVolume()
	}
	root := newDir()
	dirs := []string{"/"}
	n := r.Intn(40)
	if r.Intn(6) == 0 {
		n = 120 + r.Intn(100)
	}
	for i := 0; i < n; i++ {
		p := path.Join(dirs[r.Intn(len(dirs))], vname(r, ext))
		if r.Intn(4) == 0 {
			dirs = append(dirs, p)
			p = path.Join(p, vname(r, ext))
		}
		if root.find(path.Dir(p)) != nil && root.find(path.Dir(p)).kind != 'd' {
			continue
		}
		bad := false
		for q := path.Dir(p); q != "/"; q = path.Dir(q) {
			if x := root.find(q); x != nil && x.kind != 'd' {
				bad = true
			}
		}
		if bad || root.find(p) != nil {
			continue
		}
		if r.Intn(4) == 0 {
			tg := vtarget(r)
			if err := v.AddSymlink(p, tg); err != nil {
				return nil, nil, fmt.Sprintf("AddSymlink(%q, %q): %v", p, tg, err)
			}
			root.add(p, &vnode{kind: 'l', target: tg})
			continue
		}
		var sz int64
		switch r.Intn(6) {
		case 0:
			sz = 0
		case 1:
			sz = 2048 * int64(r.Intn(3))
		case 2:
			sz = 2047 + int64(r.Intn(3))
		default:
			sz = int64(r.Intn(9000))
		}
		if big && r.Intn(5) == 0 {
			sz = iso9660.MaxPartSize*int64(r.Intn(4)) + int64(r.Intn(5000)) - 2
			if sz < 0 {
				sz = 0
			}
		}
		o := &vobj{size: sz, seed: byte(i), url: fmt.Sprintf("v:%d", i)}
		if err := v.AddFile(p, o); err != nil {
			return nil, nil, fmt.Sprintf("AddFile(%q): %v", p, err)
		}
		root.add(p, &vnode{kind: 'f', obj: o})
	}
	return v, root, ""
}

// ---- oracle reader ----

type vrec struct {
	off, size  int // position in the directory, declared length
	ident      string
	start      uint32
	length     uint32
	flags      byte
	date       []byte
	volume     uint16
	su         []vsu
	inRecord   int // entries held by the record itself
	ceRanges   []vrange
	attrLen    byte
	unit, gap  byte
	identEnd   int
	suRaw      []byte
	bothErrors []string
}

type vsu struct {
	sig  string
	body []byte // after the four byte header
	raw  []byte
}

type vrange struct {
	lo, hi int64
	what   string
}

func both32(b []byte) (uint32, error) {
	l, g := binary.LittleEndian.Uint32(b), binary.BigEndian.Uint32(b[4:])
	if l != g {
		return l, fmt.Errorf("byte orders differ: %d %d", l, g)
	}
	return l, nil
}

func both16(b []byte) (uint16, error) {
	l, g := binary.LittleEndian.Uint16(b), binary.BigEndian.Uint16(b[2:])
	if l != g {
		return l, fmt.Errorf("byte orders differ: %d %d", l, g)
	}
	return l, nil
}

func parseSU(b []byte) (out []vsu, err error) {
	for len(b) > 0 {
		if len(b) < 4 {
			if len(b) == 1 && b[0] == 0 {
				return
			}
			return out, fmt.Errorf("trailing bytes % x", b)
		}
		n := int(b[2])
		if n < 4 || n > len(b) {
			return out, fmt.Errorf("entry %q declares length %d of %d", b[:2], n, len(b))
		}
		if b[3] != 1 {
			return out, fmt.Errorf("entry %q has version %d", b[:2], b[3])
		}
		out = append(out, vsu{string(b[:2]), b[4:n], b[:n]})
		b = b[n:]
	}
	return
}

// followSU resolves continuations. Entries after a pointer in one area belong before the continuation.
func (m vimg) followSU(b []byte, rec *vrec) error {
	first := true
	for hops := 0; ; hops++ {
		if hops > 1000 {
			return errors.New("continuation chain does not end")
		}
		es, err := parseSU(b)
		if err != nil {
			return err
		}
		var ce *vsu
		for i := range es {
			if es[i].sig == "CE" {
				if ce != nil {
					return errors.New("two continuation pointers in one area")
				}
				ce = &es[i]
				if i != len(es)-1 {
					return errors.New("continuation pointer is not last")
				}
				continue
			}
			rec.su = append(rec.su, es[i])
		}
		if first {
			rec.inRecord = len(es)
			first = false
		}
		if ce == nil {
			return nil
		}
		if len(ce.body) != 24 {
			return fmt.Errorf("CE body of %d bytes", len(ce.body))
		}
		lba, e1 := both32(ce.body)
		off, e2 := both32(ce.body[8:])
		n, e3 := both32(ce.body[16:])
		if e1 != nil || e2 != nil || e3 != nil {
			return fmt.Errorf("CE: %v %v %v", e1, e2, e3)
		}
		if int64(off)+int64(n) > 2048 {
			return fmt.Errorf("continuation offset %d length %d leaves its sector", off, n)
		}
		if n == 0 {
			return errors.New("empty continuation")
		}
		lo := int64(lba)*2048 + int64(off)
		rec.ceRanges = append(rec.ceRanges, vrange{lo, lo + int64(n), "continuation of " + fmt.Sprintf("%q", rec.ident)})
		b = make([]byte, n)
		m.ReadAt(b, lo)
	}
}

func (m vimg) parseDir(lba, length uint32) (recs []*vrec, err error) {
	b := m.sector(lba, int64(length))
	pos := 0
	for pos < len(b) {
		n := int(b[pos])
		if n == 0 {
			nx := (pos/2048 + 1) * 2048
			for i := pos; i < nx && i < len(b); i++ {
				if b[i] != 0 {
					return recs, fmt.Errorf("byte %d after the last record of a sector is not zero", i)
				}
			}
			pos = nx
			continue
		}
		if pos/2048 != (pos+n-1)/2048 {
			return recs, fmt.Errorf("record at %d of %d bytes crosses a sector", pos, n)
		}
		r, err := parseRec(b[pos : pos+n])
		if err != nil {
			return recs, fmt.Errorf("record at %d: %v", pos, err)
		}
		r.off = pos
		if err := m.followSU(r.suRaw, r); err != nil {
			return recs, fmt.Errorf("record at %d (%q): %v", pos, r.ident, err)
		}
		recs = append(recs, r)
		pos += n
	}
	return
}

func parseRec(b []byte) (*vrec, error) {
	if len(b) < 34 {
		return nil, fmt.Errorf("record of %d bytes", len(b))
	}
	r := &vrec{size: len(b), attrLen: b[1], flags: b[25], unit: b[26], gap: b[27], date: b[18:25]}
	var e1, e2, e3 error
	r.start, e1 = both32(b[2:])
	r.length, e2 = both32(b[10:])
	r.volume, e3 = both16(b[28:])
	if e1 != nil || e2 != nil || e3 != nil {
		return nil, fmt.Errorf("%v %v %v", e1, e2, e3)
	}
	l := int(b[32])
	if l < 1 || 33+l > len(b) {
		return nil, fmt.Errorf("identifier length %d in record of %d", l, len(b))
	}
	r.ident = string(b[33 : 33+l])
	r.identEnd = 33 + l
	if l%2 == 0 {
		if 33+l >= len(b) || b[33+l] != 0 {
			return nil, errors.New("pad byte after identifier missing")
		}
		r.identEnd++
	}
	r.suRaw = b[r.identEnd:]
	return r, nil
}

func (r *vrec) name() (string, error) {
	s := ""
	n := 0
	for _, e := range r.su {
		if e.sig == "NM" {
			n++
			s += string(e.body[1:])
			if e.body[0]&1 == 0 {
				return s, nil
			}
		}
	}
	return "", fmt.Errorf("%d NM entries without an end", n)
}

func (r *vrec) px() (mode, nlink, uid, gid, ino uint32, err error) {
	for _, e := range r.su {
		if e.sig == "PX" {
			if len(e.body) != 40 {
				return 0, 0, 0, 0, 0, fmt.Errorf("PX body of %d", len(e.body))
			}
			var v [5]uint32
			for i := range v {
				if v[i], err = both32(e.body[8*i:]); err != nil {
					return
				}
			}
			return v[0], v[1], v[2], v[3], v[4], nil
		}
	}
	return 0, 0, 0, 0, 0, errors.New("no PX entry")
}

// symlink joins SL components as RRIP 4.1.3 says (one component record per entry or several).
func (r *vrec) symlink() (string, bool, error) {
	var parts []string
	cur, open, seen := "", false, false
	for _, e := range r.su {
		if e.sig != "SL" {
			continue
		}
		seen = true
		c := e.body[1:]
		for len(c) > 0 {
			if len(c) < 2 || len(c) < 2+int(c[1]) {
				return "", true, errors.New("SL component truncated")
			}
			fl, d := c[0], string(c[2:2+int(c[1])])
			c = c[2+int(c[1]):]
			switch {
			case fl&2 != 0:
				parts = append(parts, ".")
			case fl&4 != 0:
				parts = append(parts, "..")
			case fl&8 != 0:
				parts = append(parts, "")
			default:
				cur += d
				open = true
				if fl&1 == 0 {
					parts = append(parts, cur)
					cur, open = "", false
				}
			}
		}
		if e.body[0]&1 == 0 {
			if open {
				return "", true, errors.New("SL ends inside a component")
			}
			return strings.Join(parts, "/"), true, nil
		}
	}
	if seen {
		return "", true, errors.New("SL entries without an end")
	}
	return "", false, nil
}

type vpvd struct {
	space, pathSize, lStart, mStart, rootStart, rootLen uint32
}

func (m vimg) pvd() (p vpvd, err error) {
	b := m.sector(16, 2048)
	if string(b[:7]) != "\x01CD001\x01" || b[7] != 0 {
		return p, fmt.Errorf("descriptor header % x", b[:8])
	}
	var e [4]error
	p.space, e[0] = both32(b[80:])
	p.pathSize, e[1] = both32(b[132:])
	p.lStart = binary.LittleEndian.Uint32(b[140:])
	p.mStart = binary.BigEndian.Uint32(b[148:])
	if bs, _ := both16(b[128:]); bs != 2048 {
		return p, fmt.Errorf("block size %d", bs)
	}
	r, err := parseRec(b[156:190])
	if err != nil {
		return p, fmt.Errorf("root record: %v", err)
	}
	if b[156] != 34 || r.ident != "\x00" || r.flags != 2 {
		return p, fmt.Errorf("root record %v", r)
	}
	p.rootStart, p.rootLen = r.start, r.length
	for _, x := range e {
		if x != nil {
			err = x
		}
	}
	t := m.sector(17, 2048)
	if string(t[:7]) != "\xffCD001\x01" {
		return p, fmt.Errorf("terminator % x", t[:8])
	}
	return
}

func vbytes(n int64) int64 { // sectors occupied by n bytes, at least one
	if n == 0 {
		return 1
	}
	return (n + 2047) / 2048
}

// vfile is what the oracle found for one name.
type vfound struct {
	kind    byte
	recs    []*vrec
	dir     []*vfound
	name    string
	size    int64
	target  string
	mode    uint32
	nlink   uint32
	ino     uint32
	start   uint32
	entries int
}

// readTree reads the whole image with the oracle. ranges receives every extent.
func (m vimg) readTree(p vpvd) (root *vfound, ranges []vrange, err error) {
	ranges = append(ranges,
		vrange{0, 16, "system area"}, vrange{16, 17, "primary descriptor"}, vrange{17, 18, "terminator"},
		vrange{int64(p.lStart), int64(p.lStart) + vbytes(int64(p.pathSize)), "L path table"},
		vrange{int64(p.mStart), int64(p.mStart) + vbytes(int64(p.pathSize)), "M path table"})
	root = &vfound{kind: 'd', name: "/", start: p.rootStart, size: int64(p.rootLen)}
	depth := 0
	var walk func(d *vfound, parent *vfound) error
	walk = func(d, parent *vfound) error {
		depth++
		defer func() { depth-- }()
		if depth > 60 {
			return errors.New("directories nest without end")
		}
		ranges = append(ranges, vrange{int64(d.start), int64(d.start) + vbytes(d.size), "directory " + d.name})
		recs, err := m.parseDir(d.start, uint32(d.size))
		if err != nil {
			return fmt.Errorf("directory %q: %v", d.name, err)
		}
		d.entries = len(recs)
		if len(recs) < 2 || recs[0].ident != "\x00" || recs[1].ident != "\x01" {
			return fmt.Errorf("directory %q does not start with . and ..", d.name)
		}
		if recs[0].start != d.start || int64(recs[0].length) != d.size {
			return fmt.Errorf("directory %q: . points to %d+%d, not %d+%d", d.name, recs[0].start, recs[0].length, d.start, d.size)
		}
		if recs[1].start != parent.start || int64(recs[1].length) != parent.size {
			return fmt.Errorf("directory %q: .. points to %d+%d, not %d+%d", d.name, recs[1].start, recs[1].length, parent.start, parent.size)
		}
		contLo, contHi := int64(1)<<62, int64(-1)
		for i := 0; i < len(recs); {
			j := i + 1
			for recs[j-1].flags&0x80 != 0 && j < len(recs) {
				j++
			}
			f := &vfound{recs: recs[i:j]}
			for k := i; k < j; k++ {
				r := recs[k]
				for _, c := range r.ceRanges {
					if c.lo/2048 < contLo {
						contLo = c.lo / 2048
					}
					if (c.hi-1)/2048 > contHi {
						contHi = (c.hi - 1) / 2048
					}
				}
				if k < j-1 && r.flags&0x80 == 0 || k == j-1 && r.flags&0x80 != 0 {
					return fmt.Errorf("directory %q: record %q: wrong multi-extent flag", d.name, r.ident)
				}
				if r.ident != recs[i].ident {
					return fmt.Errorf("directory %q: extents of one file have identifiers %q and %q", d.name, recs[i].ident, r.ident)
				}
				f.size += int64(r.length)
			}
			r := recs[i]
			f.start = r.start
			f.name, err = r.name()
			if err != nil {
				return fmt.Errorf("directory %q record %q: %v", d.name, r.ident, err)
			}
			f.mode, f.nlink, _, _, f.ino, err = r.px()
			if err != nil {
				return fmt.Errorf("directory %q record %q: %v", d.name, f.name, err)
			}
			tg, isl, err := r.symlink()
			if err != nil {
				return fmt.Errorf("directory %q record %q: %v", d.name, f.name, err)
			}
			switch {
			case r.flags&2 != 0:
				f.kind = 'd'
			case isl:
				f.kind = 'l'
				f.target = tg
			default:
				f.kind = 'f'
				for k := i; k < j; k++ {
					ranges = append(ranges, vrange{int64(recs[k].start), int64(recs[k].start) + vbytes(int64(recs[k].length)), "file " + f.name})
				}
			}
			if i >= 2 {
				d.dir = append(d.dir, f)
			}
			i = j
		}
		if contHi >= 0 {
			ranges = append(ranges, vrange{contLo, contHi + 1, "continuation area of " + d.name})
		}
		for _, f := range d.dir {
			if f.kind == 'd' {
				if err := walk(f, d); err != nil {
					return err
				}
			}
		}
		return nil
	}
	err = walk(root, root)
	return
}

// checkRanges finds extents that overlap, are empty or leave the volume.
func checkRanges(t *testing.T, key string, rs []vrange, space int64, in string) {
	sort.Slice(rs, func(i, j int) bool { return rs[i].lo < rs[j].lo || rs[i].lo == rs[j].lo && rs[i].hi < rs[j].hi })
	for i, r := range rs {
		if r.hi > space {
			vfail(t, key+":outside", "%s occupies sectors %d..%d of a volume of %d; tree: %s", r.what, r.lo, r.hi, space, in)
		}
		if r.hi <= r.lo {
			vfail(t, key+":empty", "%s owns no sector; tree: %s", r.what, in)
		}
		if i > 0 && rs[i-1].hi > r.lo {
			vfail(t, key+":overlap", "%s [%d,%d) overlaps %s [%d,%d); tree: %s", rs[i-1].what, rs[i-1].lo, rs[i-1].hi, r.what, r.lo, r.hi, in)
		}
	}
}

// vdescribe renders a tree for failure messages.
func vdescribe(n *vnode) string {
	var b strings.Builder
	n.each("/", func(p string, x *vnode) {
		if len(p) > 60 {
			p = fmt.Sprintf("%s...(%d bytes)", p[:40], len(p))
		}
		switch x.kind {
		case 'f':
			fmt.Fprintf(&b, "%s file %d; ", p, x.obj.size)
		case 'l':
			fmt.Fprintf(&b, "%s -> %.40q(%d); ", p, x.target, len(x.target))
		}
	})
	return b.String()
}
