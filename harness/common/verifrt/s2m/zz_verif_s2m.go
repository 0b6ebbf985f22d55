// Package s2m stands in for the S2 compression in the symbolic run: a stream is an identifier and
// blocks with a length in front, so that only reading from its start yields the data.
// Native replays use the real S2.
package s2m

import (
	"errors"
	"io"

	"github.com/klauspost/compress/s2"
)

const ident = "\xff\x06\x00\x00S2sTwO"

var errCorrupt = errors.New("s2: corrupt input")

type wr struct {
	w    io.Writer
	buf  []byte
	head bool
	err  error
	done bool
}

type rd struct {
	r    io.Reader
	left []byte
	head bool
	err  error
}

var (
	ws = map[*s2.Writer]*wr{}
	rs = map[*s2.Reader]*rd{}
)

//gosym:model github.com/klauspost/compress/s2.NewWriter
func zzNewWriter(w io.Writer, _ ...s2.WriterOption) *s2.Writer {
	x := new(s2.Writer)
	ws[x] = &wr{w: w}
	return x
}

//gosym:model github.com/klauspost/compress/s2.WriterBetterCompression
func zzBetter() s2.WriterOption { return nil }

//gosym:model github.com/klauspost/compress/s2.WriterBlockSize
func zzBlockSize(n int) s2.WriterOption {
	if n > 4<<20 || n < 4<<10 {
		panic("s2: block size too large or small")
	}
	return nil
}

//gosym:model github.com/klauspost/compress/s2.WriterConcurrency
func zzConcurrency(n int) s2.WriterOption { return nil }

func (x *wr) emit(b []byte) {
	if x.err == nil {
		_, x.err = x.w.Write(b)
	}
}

func (x *wr) flush() error {
	if x.err == nil && len(x.buf) > 0 {
		if !x.head {
			x.head = true
			x.emit([]byte(ident))
		}
		n := len(x.buf)
		x.emit(append([]byte{0, byte(n), byte(n >> 8), byte(n >> 16)}, x.buf...))
		x.buf = nil
	}
	return x.err
}

//gosym:model (*github.com/klauspost/compress/s2.Writer).Write
func zzWrite(w *s2.Writer, b []byte) (int, error) {
	x := ws[w]
	if x.err != nil {
		return 0, x.err
	}
	if x.done {
		return 0, errors.New("s2: Writer is closed")
	}
	x.buf = append(x.buf, b...)
	return len(b), nil
}

//gosym:model (*github.com/klauspost/compress/s2.Writer).ReadFrom
func zzReadFrom(w *s2.Writer, r io.Reader) (n int64, err error) {
	p := make([]byte, 4096)
	for {
		k, e := r.Read(p)
		if k > 0 {
			if _, err = zzWrite(w, p[:k]); err != nil {
				return n, err
			}
			n += int64(k)
		}
		if e == io.EOF {
			return n, nil
		}
		if e != nil {
			ws[w].err = e
			return n, e
		}
	}
}

//gosym:model (*github.com/klauspost/compress/s2.Writer).Flush
func zzFlush(w *s2.Writer) error { return ws[w].flush() }

//gosym:model (*github.com/klauspost/compress/s2.Writer).Close
func zzCloseW(w *s2.Writer) error {
	x := ws[w]
	err := x.flush()
	x.done = true
	return err
}

//gosym:model github.com/klauspost/compress/s2.NewReader
func zzNewReader(r io.Reader, _ ...s2.ReaderOption) *s2.Reader {
	x := new(s2.Reader)
	rs[x] = &rd{r: r}
	return x
}

func (x *rd) fill() {
	for len(x.left) == 0 && x.err == nil {
		h := make([]byte, 4)
		if _, e := io.ReadFull(x.r, h); e != nil {
			x.err = e
			if e == io.ErrUnexpectedEOF {
				x.err = errCorrupt
			}
			return
		}
		n := int(h[1]) | int(h[2])<<8 | int(h[3])<<16
		if h[0] == 0xff {
			b := make([]byte, 6)
			if _, e := io.ReadFull(x.r, b); e != nil || string(h)+string(b) != ident {
				x.err = errCorrupt
				return
			}
			x.head = true
			continue
		}
		if !x.head || h[0] != 0 || n > 1<<22 {
			x.err = errCorrupt
			return
		}
		b := make([]byte, n)
		if _, e := io.ReadFull(x.r, b); e != nil {
			x.err = io.ErrUnexpectedEOF
			if e != io.EOF && e != io.ErrUnexpectedEOF {
				x.err = e
			}
			return
		}
		x.left = b
	}
}

//gosym:model (*github.com/klauspost/compress/s2.Reader).Read
func zzRead(r *s2.Reader, p []byte) (int, error) {
	x := rs[r]
	if len(p) == 0 {
		return 0, x.err
	}
	x.fill()
	if len(x.left) == 0 {
		return 0, x.err
	}
	n := copy(p, x.left)
	x.left = x.left[n:]
	return n, nil
}

//gosym:model (*github.com/klauspost/compress/s2.Reader).ReadByte
func zzReadByte(r *s2.Reader) (byte, error) {
	p := make([]byte, 1)
	if _, err := zzRead(r, p); err != nil {
		return 0, err
	}
	return p[0], nil
}

//gosym:model (*github.com/klauspost/compress/s2.Reader).Skip
func zzSkip(r *s2.Reader, n int64) error {
	x := rs[r]
	for n > 0 {
		x.fill()
		if len(x.left) == 0 {
			if x.err == io.EOF {
				x.err = io.ErrUnexpectedEOF
			}
			return x.err
		}
		k := int64(len(x.left))
		if k > n {
			k = n
		}
		x.left = x.left[k:]
		n -= k
	}
	return nil
}

//gosym:model (*github.com/klauspost/compress/s2.Reader).Reset
func zzReset(r *s2.Reader, rr io.Reader) { rs[r] = &rd{r: rr} }

//gosym:model (*github.com/klauspost/compress/s2.Writer).Reset
func zzResetW(w *s2.Writer, ww io.Writer) { ws[w] = &wr{w: ww} }
