package http

import (
	"bytes"
	"common/verifrt"
	"common/verifrt/fsm"
	"common/verifrt/ginm"
	"errors"
	"io"
	"objectserver/internal/usecase/pool"
	"objectserver/internal/usecase/service"
	"strconv"
	"strings"
	"syscall"

	"github.com/gin-gonic/gin"
)

// zzData is a content with a chosen byte in its middle; different seeds give different contents.
func zzData(n, seed int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i*7 + i>>8 + seed*101 + 1)
	}
	if n > 0 {
		b[n/2] = verifrt.AnyByte("content")
	}
	return b
}

// zzSource hands content out in pieces and may fail after some of it.
type zzSource struct {
	b    []byte
	step int
	fail int // position at which it fails, -1 for never
	pos  int
}

var errSource = errors.New("connection lost")

func (s *zzSource) Read(p []byte) (int, error) {
	if s.fail >= 0 && s.pos >= s.fail {
		return 0, errSource
	}
	if s.pos == len(s.b) {
		return 0, io.EOF
	}
	n := len(s.b) - s.pos
	if s.fail >= 0 && n > s.fail-s.pos {
		n = s.fail - s.pos
	}
	if s.step > 0 && n > s.step {
		n = s.step
	}
	n = copy(p, s.b[s.pos:s.pos+n])
	s.pos += n
	return n, nil
}

type zzServer struct{ *Server }

func zzServe() zzServer {
	gin.SetMode(gin.ReleaseMode)
	return zzServer{NewHttpServer("0", nil)}
}

func zzQuery(compress bool) string {
	if compress {
		return "compress=true"
	}
	return ""
}

func (s zzServer) put(name string, body io.Reader, n int, compress bool) int {
	w := ginm.Do(s.Handler, "PUT", "/objects/"+name, zzQuery(compress), nil, body, int64(n))
	verifrt.Drain()
	return w.Code
}

func (s zzServer) get(name string, off, size int, compress bool) *ginm.Writer {
	h := map[string]string{"Size": strconv.Itoa(size)}
	if off > 0 {
		h["Range"] = "bytes=" + strconv.Itoa(off) + "-"
	}
	w := ginm.Do(s.Handler, "GET", "/objects/"+name, zzQuery(compress), h, nil, 0)
	verifrt.Drain()
	return w
}

func (s zzServer) head(name string) int {
	c := ginm.Do(s.Handler, "HEAD", "/objects/"+name, "", nil, nil, 0).Code
	verifrt.Drain()
	if c == 0 {
		c = 200
	}
	return c
}

func (s zzServer) remove(name string) int {
	c := ginm.Do(s.Handler, "DELETE", "/objects/"+name, "", nil, nil, 0).Code
	verifrt.Drain()
	return c
}

func zzOK(c int) bool { return c == 0 || c == 200 }

type zzObj struct {
	data     []byte
	compress bool
}

// zzCheck compares what the server answers with what it should store.
func zzCheck(s zzServer, names []string, want map[string]*zzObj) {
	n := 0
	for _, name := range names {
		o := want[name]
		if o == nil {
			verifrt.Assert(s.head(name) == 404, "an object that is not stored does not exist")
			w := s.get(name, 0, 5, false)
			verifrt.Assert(w.Code == 404, "an object that is not stored cannot be read")
			continue
		}
		n++
		verifrt.Assert(s.head(name) == 200, "a stored object exists")
		w := s.get(name, 0, len(o.data), o.compress)
		verifrt.Assert(zzOK(w.Code) && !w.Abort && verifrt.EqBytes(w.Body, o.data), "a stored object is read as it was written")
	}
	files, total := service.VerifFiles()
	verifrt.Assert(len(files) == n, "there is one file for every object and no other")
	verifrt.Assert(pool.ObjectCap.Capacity() == total, "the capacity is the size of the stored files")
}

// Any sequence of writing, reading and removing objects answers as a map of contents.
//
//gosym:with objectserver/internal/db/zz_verif_support.go
//gosym:with objectserver/internal/usecase/component/zz_verif_support.go
//gosym:with objectserver/internal/usecase/service/zz_verif_world.go
//gosym:harness C17 quick=60s thorough=600s
func VerifC17Objects() {
	c := service.VerifWorld(verifrt.TempDir(), false, 5, 9)
	s := zzServe()
	names := []string{"h.0", "h.1"}
	sizes := []int{9000, 1, 4096}
	want := map[string]*zzObj{}
	k := verifrt.Bound("operations", 3, 4)
	for i := 0; i < k; i++ {
		op := verifrt.Choice("operation", 3)
		name := ""
		if op < 2 {
			name = names[verifrt.Choice("name", 2)]
		}
		switch op {
		case 0:
			n := sizes[verifrt.Choice("size", verifrt.Bound("object sizes", 2, 3))]
			o := &zzObj{zzData(n, i), verifrt.Choice("compress", 2) == 1}
			verifrt.Assert(zzOK(s.put(name, bytes.NewReader(o.data), n, o.compress)), "an object is stored")
			if want[name] == nil {
				want[name] = o
			}
		case 1:
			verifrt.Assert(s.remove(name) == 204, "removing succeeds, stored or not")
			delete(want, name)
		case 2:
			c.Forget()
		}
	}
	if verifrt.Choice("expired", 2) == 1 {
		c.Forget()
	}
	zzCheck(s, names, want)
	zzCheck(s, names, want)
	verifrt.Assert(s.put("e.0", bytes.NewReader(nil), 0, false) == 400, "an empty object is refused")
	verifrt.Assert(s.head("e.0") == 404, "a refused object does not exist")
	verifrt.Reach("end")
}

// Every part inside an object is read exactly, from its file and from the cache.
//
//gosym:harness C17 quick=60s thorough=600s
func VerifC17Range() {
	c := service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	sizes := []int{1, 100, 4096, 4097, 8192, 8193, 20000, 40000, 70000}
	n := sizes[verifrt.Choice("size", verifrt.Bound("object sizes", 7, 9))]
	compress := verifrt.Choice("compress", 2) == 1
	data := zzData(n, 1)
	src := &zzSource{b: data, step: []int{0, 1000}[verifrt.Choice("pieces", 2)], fail: -1}
	verifrt.Assert(zzOK(s.put("h.0", src, n, compress)), "an object is stored")
	if verifrt.Choice("cached", 2) == 0 {
		c.Forget()
	}
	var offs []int
	for i := 0; i < 2; i++ {
		lens := []int{0, 1, 99, 4096, 4097, 5, 33000}
		if i == 0 && !verifrt.Thorough() { // a read before decides what is cached
			offs, lens = []int{0, 1}, []int{0, 99}
		} else {
			offs = []int{0, 1, 10, 4095, 4096, 4097, 8000, 8192, 16384, n - 1}
		}
		off := offs[verifrt.Choice("offset", len(offs))]
		verifrt.Assume(off < n)
		lens[0] = n - off
		if len(lens) > 5 {
			lens[5] = n - off - 1
		}
		l := lens[verifrt.Choice("length", len(lens))]
		verifrt.Assume(l > 0 && l <= n-off)
		w := s.get("h.0", off, l, compress)
		verifrt.Assert(zzOK(w.Code) && !w.Abort, "a part of an object is read")
		verifrt.Assert(verifrt.EqBytes(w.Body, data[off:off+l]), "the part has the bytes that were written there")
	}
	verifrt.Reach("end")
}

// A write whose source fails leaves nothing behind, and the next write stores the object.
//
//gosym:harness C17 quick=60s thorough=600s
func VerifC17Source() {
	service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	n := []int{100, 4096, 9000, 20000}[verifrt.Choice("size", 4)]
	fail := []int{0, 1, 99, 4095, 4096, 8192, 8999}[verifrt.Choice("failure", 7)]
	verifrt.Assume(fail < n)
	compress := verifrt.Choice("compress", 2) == 1
	o := &zzObj{zzData(n, 1), compress}
	code := s.put("h.0", &zzSource{b: o.data, fail: fail, step: 3000}, n, compress)
	verifrt.Assert(code >= 400, "a write whose source failed is reported as failed")
	zzCheck(s, []string{"h.0"}, map[string]*zzObj{})
	verifrt.Assert(zzOK(s.put("h.0", &zzSource{b: o.data, fail: -1}, n, compress)), "the object is stored by the next write")
	zzCheck(s, []string{"h.0"}, map[string]*zzObj{"h.0": o})
	verifrt.Reach("end")
}

// A write during which the disk fails is either reported as failed and leaves no object behind, or stores all of it.
//
//gosym:harness C17 quick=60s thorough=600s native=off
func VerifC17DiskFault() {
	service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	n := []int{100, 9000, 20000}[verifrt.Choice("size", 3)]
	compress := verifrt.Choice("compress", 2) == 1
	o := &zzObj{zzData(n, 1), compress}
	at := fsm.Ops + 1 + verifrt.Choice("failure", 8)
	fsm.Fault = func(op, path string) error {
		if fsm.Ops == at {
			return syscall.EIO
		}
		return nil
	}
	code := s.put("h.0", bytes.NewReader(o.data), n, compress)
	hit := fsm.Ops >= at
	fsm.Fault = nil
	if !hit {
		verifrt.Assert(zzOK(code), "a write without faults succeeds")
		return
	}
	want := map[string]*zzObj{}
	if zzOK(code) {
		want["h.0"] = o
	}
	zzCheck(s, []string{"h.0"}, want)
	if !zzOK(code) {
		verifrt.Assert(zzOK(s.put("h.0", bytes.NewReader(o.data), n, compress)), "the object is stored by the next write")
		want["h.0"] = o
		zzCheck(s, []string{"h.0"}, want)
	}
	verifrt.Reach("end")
}

// A read during which the disk fails is never answered as complete.
//
//gosym:harness C17 quick=60s thorough=600s native=off
func VerifC17ReadFault() {
	c := service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	n := []int{100, 9000, 70000}[verifrt.Choice("size", 3)]
	compress := verifrt.Choice("compress", 2) == 1
	o := &zzObj{zzData(n, 1), compress}
	verifrt.Assert(zzOK(s.put("h.0", bytes.NewReader(o.data), n, compress)), "an object is stored")
	c.Forget()
	left, hit := verifrt.Choice("failure", 3), false
	fsm.ReadFault = func(path string, off int64) error {
		if left == 0 {
			hit = true
			return syscall.EIO
		}
		left--
		return nil
	}
	w := s.get("h.0", 0, n, compress)
	fsm.ReadFault = nil
	if hit {
		verifrt.Assert(w.Abort || w.Code >= 400 || len(w.Body) == n && verifrt.EqBytes(w.Body, o.data), "a read that failed is not answered as complete")
		verifrt.Reach("failed")
	}
	zzCheck(s, []string{"h.0"}, map[string]*zzObj{"h.0": o})
	verifrt.Reach("end")
}

// After a restart the same objects are stored on both mount points, with or without the path cache.
//
//gosym:harness C17 quick=60s thorough=600s
func VerifC17Restart() {
	root := verifrt.TempDir()
	service.VerifWorld(root, false, 9, 5)
	s := zzServe()
	names := []string{"h.0", "h.1", "h.2"}
	want := map[string]*zzObj{}
	sizes := []int{1, 9000}
	write := func(i int) {
		if verifrt.Choice("stored", 2) == 1 {
			n := sizes[verifrt.Choice("size", 2)]
			o := &zzObj{zzData(n, i), verifrt.Choice("compress", 2) == 1}
			verifrt.Assert(zzOK(s.put(names[i], bytes.NewReader(o.data), n, o.compress)), "an object is stored")
			want[names[i]] = o
		}
	}
	write(0)
	service.VerifWorld(root, true, 5, 9) // from now on objects go to the other mount point
	service.WarmUpLocateCache()
	write(1)
	if verifrt.Choice("removed", 2) == 1 {
		verifrt.Assert(s.remove(names[0]) == 204, "an object is removed")
		delete(want, names[0])
	}
	// an upload in progress when the server stops is not an object
	id := zzPost(s, "h.2", 10)
	verifrt.Assert(zzOK(zzPatch(s, id, bytes.NewReader(zzData(10, 9)), 10)), "a piece is stored")
	c := service.VerifWorld(root, true, 9, 5)
	service.WarmUpLocateCache()
	if verifrt.Choice("expired", 2) == 1 {
		c.Forget()
	}
	n := 0
	for _, name := range names {
		if o := want[name]; o != nil {
			verifrt.Assert(s.head(name) == 200, "a stored object exists after a restart")
			w := s.get(name, 0, len(o.data), o.compress)
			verifrt.Assert(zzOK(w.Code) && verifrt.EqBytes(w.Body, o.data), "a stored object is read as it was written after a restart")
			n++
		} else {
			verifrt.Assert(s.head(name) == 404, "an object that is not stored does not exist after a restart")
		}
	}
	files, total := service.VerifFiles()
	var objects int
	for _, f := range files {
		if !strings.Contains(f, "TempInfo_") {
			objects++
		}
	}
	verifrt.Assert(objects == n, "there is one file for every object after a restart")
	verifrt.Assert(pool.ObjectCap.Capacity() == total-4096, "the capacity is the size of the stored files after a restart")
	verifrt.Reach("end")
}

func zzPost(s zzServer, name string, size int) string {
	w := ginm.Do(s.Handler, "POST", "/temp/"+name, "", map[string]string{"Size": strconv.Itoa(size)}, nil, 0)
	verifrt.Drain()
	verifrt.Assert(w.Code == 200 && len(w.Body) > 0, "an upload is started")
	return string(w.Body)
}

func zzPatch(s zzServer, id string, body io.Reader, n int) int {
	w := ginm.Do(s.Handler, "PATCH", "/temp/"+id, "", nil, body, int64(n))
	verifrt.Drain()
	return w.Code
}

func zzTemp(s zzServer, method, id, query string, size int) *ginm.Writer {
	h := map[string]string{}
	if size > 0 {
		h["Size"] = strconv.Itoa(size)
	}
	w := ginm.Do(s.Handler, method, "/temp/"+id, query, h, nil, 0)
	verifrt.Drain()
	return w
}

// An upload in pieces is stored exactly when it is committed; removed and expired uploads leave nothing behind.
//
//gosym:harness C17 quick=60s thorough=600s
func VerifC17Upload() {
	c := service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	stop := service.StartTempRemovalBackground(c, 1)
	defer stop()
	pieces := [][]int{{1}, {4096}, {4096, 100}, {8192, 4096, 9000}, {65536, 4096}}[verifrt.Choice("pieces", 5)]
	total := 0
	for _, p := range pieces {
		total += p
	}
	o := &zzObj{zzData(total, 1), verifrt.Choice("compress", 2) == 1}
	want := map[string]*zzObj{}
	var other *zzObj
	if verifrt.Choice("already stored", 2) == 1 {
		other = &zzObj{zzData(50, 2), false}
		verifrt.Assert(zzOK(s.put("h.0", bytes.NewReader(other.data), 50, false)), "an object is stored")
		want["h.0"] = other
	}
	verifrt.Assert(zzTemp(s, "HEAD", "TempInfo_x", "", 0).Code == 404, "an unknown upload does not exist")
	id := zzPost(s, "h.0", total)
	id2 := zzPost(s, "h.1", 10)
	verifrt.Assert(id != id2, "uploads have different names")
	verifrt.Assert(zzOK(zzPatch(s, id2, bytes.NewReader(zzData(10, 3)), 10)), "a piece of another upload is stored")
	w := zzTemp(s, "HEAD", id, "", 0)
	verifrt.Assert(zzOK(w.Code) && w.Head.Get("Size") == "0", "a new upload is empty")
	pos := 0
	for _, p := range pieces {
		verifrt.Assert(zzOK(zzPatch(s, id, &zzSource{b: o.data[pos : pos+p], step: 3000, fail: -1}, p)), "a piece is stored")
		pos += p
		w := zzTemp(s, "HEAD", id, "", 0)
		verifrt.Assert(zzOK(w.Code) && w.Head.Get("Size") == strconv.Itoa(pos), "an upload has the size of its pieces")
	}
	w = zzTemp(s, "GET", id, "", total)
	verifrt.Assert(zzOK(w.Code) && !w.Abort && verifrt.EqBytes(w.Body, o.data), "an upload is read as it was written")
	switch verifrt.Choice("end", 3) {
	case 0:
		q := ""
		if o.compress {
			q = "compress=true"
		}
		verifrt.Assert(zzOK(zzTemp(s, "PUT", id, q, 0).Code), "an upload is committed")
		if other == nil {
			want["h.0"] = o
		}
		verifrt.Reach("committed")
	case 1:
		verifrt.Assert(zzOK(zzTemp(s, "DELETE", id, "", 0).Code), "an upload is removed")
	case 2:
		c.Expire(id)
		verifrt.Drain()
	}
	verifrt.Assert(zzTemp(s, "HEAD", id, "", 0).Code == 404 && zzTemp(s, "GET", id, "", 5).Code == 404 && zzTemp(s, "PUT", id, "", 0).Code == 404 &&
		zzPatch(s, id, bytes.NewReader([]byte{1}), 1) == 404, "an upload that has ended does not exist")
	w = zzTemp(s, "GET", id2, "", 10)
	verifrt.Assert(zzOK(w.Code) && len(w.Body) == 10, "another upload is not touched")
	verifrt.Assert(zzOK(zzTemp(s, "DELETE", id2, "", 0).Code), "another upload is removed")
	zzCheck(s, []string{"h.0", "h.1"}, want)
	if verifrt.Choice("expired", 2) == 1 {
		c.Forget()
		zzCheck(s, []string{"h.0", "h.1"}, want)
	}
	verifrt.Reach("end")
}

// A reader that meets a writer gets the whole object or none; two writers leave one whole object.
//
//gosym:harness C17 quick=60s thorough=600s native=stress
func VerifC17Concurrent() {
	service.VerifWorld(verifrt.TempDir(), false, 9, 5)
	s := zzServe()
	compress := verifrt.Choice("compress", 2) == 1
	o := &zzObj{zzData(9000, 1), compress}
	read := verifrt.Choice("other", 2) == 1
	verifrt.Schedules(verifrt.Bound("preemptions", 1, 2))
	done := make(chan int)
	go func() {
		w := ginm.Do(s.Handler, "PUT", "/objects/h.0", zzQuery(compress), nil, bytes.NewReader(o.data), 9000)
		done <- w.Code
	}()
	var w *ginm.Writer
	if read {
		w = ginm.Do(s.Handler, "GET", "/objects/h.0", zzQuery(compress), map[string]string{"Size": "9000"}, nil, 0)
	} else {
		w = ginm.Do(s.Handler, "PUT", "/objects/h.0", zzQuery(compress), nil, bytes.NewReader(o.data), 9000)
	}
	code := <-done
	verifrt.EndSchedules()
	verifrt.Drain()
	verifrt.Assert(zzOK(code), "an object is stored beside another request")
	if read {
		verifrt.Assert(w.Code == 404 || w.Abort || zzOK(w.Code) && verifrt.EqBytes(w.Body, o.data), "a read beside a write gets the whole object or none")
		verifrt.Reach("read")
	} else {
		verifrt.Assert(zzOK(w.Code), "an object is stored by both writers")
	}
	verifrt.Assert(s.head("h.0") == 200, "an object written exists")
	w = s.get("h.0", 0, 9000, compress)
	verifrt.Assert(zzOK(w.Code) && verifrt.EqBytes(w.Body, o.data), "an object written by two is whole")
	files, _ := service.VerifFiles()
	verifrt.Assert(len(files) == 1, "there is one file")
	verifrt.Reach("end")
}
