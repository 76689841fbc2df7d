package vdisc_test

import (
	"context"
	"errors"
	"hash/fnv"
	"io"
	"os"

	"github.com/NVIDIA/vdisc/pkg/storage/driver"
)

// vobj is an object whose content is computed from its URL.
type vobj struct {
	url  string
	size int64
	pos  int64
}

func vseedOf(url string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(url))
	return h.Sum64()
}

func vbyte(url string, off int64) byte {
	x := uint64(off)*0x9E3779B97F4A7C15 + vseedOf(url)
	x ^= x >> 29
	x *= 0x94D049BB133111EB
	return byte(x>>32) | 1
}

func (v *vobj) Close() error { return nil }
func (v *vobj) Size() int64  { return v.size }
func (v *vobj) URL() string  { return v.url }
func (v *vobj) Read(p []byte) (int, error) {
	n, err := v.ReadAt(p, v.pos)
	v.pos += int64(n)
	return n, err
}
func (v *vobj) Seek(off int64, whence int) (int64, error) {
	switch whence {
	case io.SeekCurrent:
		off += v.pos
	case io.SeekEnd:
		off += v.size
	}
	v.pos = off
	return off, nil
}
func (v *vobj) ReadAt(p []byte, off int64) (int, error) {
	seed := vseedOf(v.url)
	for i := range p {
		o := off + int64(i)
		if o >= v.size {
			return i, io.EOF
		}
		x := uint64(o)*0x9E3779B97F4A7C15 + seed
		x ^= x >> 29
		x *= 0x94D049BB133111EB
		p[i] = byte(x>>32) | 1
	}
	return len(p), nil
}

type vdriver struct{}

func (vdriver) Name() string { return "vdriver" }
func (vdriver) Open(ctx context.Context, url string, size int64) (driver.Object, error) {
	if size < 0 {
		return nil, errors.New("size needed")
	}
	return &vobj{url: url, size: size}, nil
}
func (vdriver) Stat(ctx context.Context, url string) (os.FileInfo, error) {
	return nil, errors.New("not offered")
}

func init() {
	driver.Register("vobj", vdriver{})
	driver.Register("vother", vdriver{})
}
