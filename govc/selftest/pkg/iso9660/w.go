package iso9660

import "io"

type CountingWriter struct {
	w io.Writer
	n int64
}

func newCountingWriter(w io.Writer) *CountingWriter {
	return &CountingWriter{w: w}
}

func (cw *CountingWriter) Write(p []byte) (n int, err error) {
	n, err = cw.w.Write(p)
	cw.n += int64(n)
	return
}

func (cw *CountingWriter) Written() int64 {
	return cw.n
}

// A writer stored and read back is still the writer that was stored.
type enc struct{ w io.Writer }

func BadNested(w io.Writer, p []byte) (int64, error) {
	cw := newCountingWriter(w)
	e := &enc{w: cw}
	before := cw.Written()
	if _, err := e.w.Write(p); err != nil {
		return 0, err
	}
	if cw.Written() != before+int64(len(p)) {
		return -1, nil
	}
	return int64(len(p)) + 1, nil
}
func OkNested(w io.Writer, p []byte) (int64, error) {
	cw := newCountingWriter(w)
	e := &enc{w: cw}
	before := cw.Written()
	if _, err := e.w.Write(p); err != nil {
		return 0, err
	}
	if cw.Written() != before+int64(len(p)) {
		return -1, nil
	}
	return int64(len(p)), nil
}

// The same through a constructor whose contract says what it stored.
func newEnc(w io.Writer) *enc { return &enc{w: w} }

func BadNestedMade(w io.Writer, p []byte) (int64, error) {
	cw := newCountingWriter(w)
	e := newEnc(cw)
	if _, err := e.w.Write(p); err != nil {
		return 0, err
	}
	if cw.Written() > 0 {
		return -1, nil
	}
	return int64(len(p)), nil
}
