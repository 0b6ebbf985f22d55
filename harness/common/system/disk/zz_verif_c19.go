package disk

import (
	"bytes"
	"common/verifrt"
	"errors"
	"io"
)

var zzErrRead = errors.New("read failed")

// zzSource delivers its data in reads of chosen sizes and then ends with EOF or a failure.
type zzSource struct {
	data   []byte
	fail   bool // ends with an error instead of EOF
	err    error
	eager  bool // reports the end together with the last bytes
	pieces int  // number of chosen short reads left
	calls  int
	once   bool // is at its end after it failed once
	told   bool
	odd    bool // was asked for something else than whole blocks
}

func (z *zzSource) end() error {
	if z.fail && !(z.once && z.told) {
		z.told = true
		if z.err == nil {
			// a network source that was cut off ends with io.ErrUnexpectedEOF
			z.err = []error{zzErrRead, io.ErrUnexpectedEOF}[verifrt.Choice("failure", 2)]
		}
		return z.err
	}
	return io.EOF
}

func (z *zzSource) Read(p []byte) (int, error) {
	z.calls++
	z.odd = z.odd || len(p)%4096 != 0
	if len(z.data) == 0 {
		return 0, z.end()
	}
	n := len(p)
	if z.pieces > 0 && n > 1 && len(z.data) > 1 {
		z.pieces--
		cut := []int{1, 2, 4095, 4096, 4097, n}
		k := cut[verifrt.Choice("short read", len(cut))]
		if k < n {
			n = k
		}
	}
	n = copy(p[:n], z.data)
	z.data = z.data[n:]
	if len(z.data) == 0 && z.eager {
		return n, z.end()
	}
	return n, nil
}

var zzLens = []int{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 12289}

// zzData is content with a symbolic byte at each end of every block.
func zzData(name string, n int) []byte {
	d := make([]byte, n)
	for i := range d {
		if i%4096 == 0 || i%4096 == 4095 || i == n-1 {
			d[i] = verifrt.AnyByte(name)
		} else {
			d[i] = byte(i%251) + 1
		}
	}
	return d
}

// AlignedSize rounds up to the next multiple of the block size.
//
//gosym:harness C19 quick=30s thorough=60s
func VerifC19Size() {
	n := verifrt.Int("n", 0, 1<<62)
	r := AlignedSize(n)
	verifrt.Assert(r%4096 == 0 && r >= n && r-n < 4096, "the aligned size is the least multiple of 4096 that holds n bytes")
	verifrt.Assert(AlignedSize64(int64(n)) == int64(r), "both aligned sizes agree")
	verifrt.Reach("end")
}

// Copying through the padding reader yields the source followed by zeros up to a block boundary.
//
//gosym:harness C19 quick=60s thorough=600s
func VerifC19Padding() {
	n := zzLens[verifrt.Choice("data length", verifrt.Bound("data lengths", 8, 10))]
	buf := 4096 * (1 + verifrt.Choice("buffer blocks", 3))
	data := zzData("b", n)
	src := &zzSource{data: data, eager: verifrt.Choice("eager", 2) == 1, fail: verifrt.Choice("fail", 2) == 1, pieces: verifrt.Bound("short reads", 1, 2)}
	var out bytes.Buffer
	w, err := io.CopyBuffer(struct{ io.Writer }{&out}, PaddingReader(src), make([]byte, buf))
	res := out.Bytes()
	if src.fail {
		verifrt.Assert(err != nil && err == src.err, "a failure of the source is reported")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(err == nil, "copying a good source succeeds")
	verifrt.Assert(int(w) == AlignedSize(n) && len(res) == AlignedSize(n), "the padded length is the next multiple of 4096")
	verifrt.Assert(verifrt.EqBytes(res[:n], data), "padding leaves the data as it is")
	for _, b := range res[n:] {
		verifrt.Assert(b == 0, "padding is zeros")
	}
	verifrt.Reach("padded")
}

// The limited reader yields exactly the first N bytes of an aligned source, whatever the buffer.
//
//gosym:harness C19 quick=60s thorough=600s
func VerifC19Limit() {
	total := zzLens[verifrt.Choice("stored", verifrt.Bound("stored lengths", 8, 10))]
	limit := zzLens[verifrt.Choice("limit", verifrt.Bound("limits", 8, 10))]
	sizes := []int{4096, 8192, 12288, 1000, 5000}
	buf := sizes[verifrt.Choice("buffer", len(sizes))]
	data := zzData("b", total)
	src := &zzSource{data: data, eager: verifrt.Choice("eager", 2) == 1, fail: verifrt.Choice("fail", 2) == 1}
	var out bytes.Buffer
	w, err := io.CopyBuffer(struct{ io.Writer }{&out}, LimitReader(src, int64(limit)), make([]byte, buf))
	want := limit
	if total < want {
		want = total
	}
	if src.fail && limit > total {
		verifrt.Assert(err != nil && err == src.err, "a failure before the limit is reported")
		verifrt.Reach("failed")
		return
	}
	verifrt.Assert(!src.odd || buf%4096 != 0, "a source is asked for whole blocks as long as the buffer is whole blocks")
	verifrt.Assert(err == nil || src.fail, "reading a good source up to the limit succeeds")
	verifrt.Assert(int(w) == want, "a limited reader yields exactly the limit, or all there is")
	verifrt.Assert(verifrt.EqBytes(out.Bytes(), data[:want]), "a limited reader yields the first bytes of the source")
	verifrt.Reach("limited")
}

// MultiReader yields the concatenation of its sources, fills each buffer, and reports a source's failure.
//
//gosym:harness C19 quick=60s thorough=600s
func VerifC19Multi() {
	k := verifrt.Choice("readers", verifrt.Bound("readers", 2, 3)+1)
	verifrt.Terminates(400000)
	lens := []int{0, 1, 3, 4}
	var all []byte
	var rds []io.Reader
	failed := false
	var bad *zzSource
	for i := 0; i < k; i++ {
		n := lens[verifrt.Choice("length", 4)]
		d := verifrt.AnyBytes("b", n)
		s := &zzSource{data: d, eager: verifrt.Choice("eager", 2) == 1, fail: verifrt.Choice("fail", 2) == 1, pieces: 1}
		s.once = s.fail && verifrt.Choice("fails once", 2) == 1
		if !failed {
			all = append(all, d...)
			if failed = s.fail; failed {
				bad = s
			}
		}
		rds = append(rds, s)
	}
	rd := MultiReader(rds...)
	if verifrt.Choice("nested", 2) == 1 {
		rd = MultiReader(rd)
	}
	size := 2 + verifrt.Choice("buffer", 3)
	var got []byte
	p := make([]byte, size)
	for i := 0; i < 20; i++ {
		n, err := rd.Read(p)
		verifrt.Assert(n >= 0 && n <= size, "a read returns at most a buffer")
		got = append(got, p[:n]...)
		if err == io.EOF {
			verifrt.Assert(!failed, "a failing source is not taken for the end")
			verifrt.Assert(verifrt.EqBytes(got, all), "the sources are concatenated without loss")
			verifrt.Reach("eof")
			return
		}
		if err != nil {
			verifrt.Assert(failed && err == bad.err, "only a source's own failure is reported")
			verifrt.Assert(verifrt.EqBytes(got, all), "everything before the failure is delivered")
			verifrt.Reach("failed")
			return
		}
		verifrt.Assert(n == size, "a read without error fills the buffer")
	}
	verifrt.Assert(false, "reading the concatenation ends")
}
