package service

import (
	"apiserver/config"
	"apiserver/internal/entity"
	"apiserver/internal/usecase"
	"apiserver/internal/usecase/componet/selector"
	"apiserver/internal/usecase/pool"
	"apiserver/internal/usecase/webapi"
	"bytes"
	"common/cst"
	"common/datasize"
	"common/registry"
	"common/verifrt"
	"common/verifrt/httpm"
	_ "common/verifrt/jsonm"
	"encoding/json"
	"errors"
	"io"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// VerifFile is a stored object of an object server.
type VerifFile struct {
	Data     []byte // padded
	Compress bool
}

// VerifTemp is an upload of an object server.
type VerifTemp struct {
	Name string
	Size int64
	Data []byte
	Made bool // the file exists
}

// VerifServer is an object server as C17 describes it.
type VerifServer struct {
	Host    string
	Objects map[string]*VerifFile
	Temps   map[string]*VerifTemp
	Down    bool
	ids     int
}

// Kinds of faults of a request.
const (
	VerifOK       = iota
	VerifLost     // the request does not arrive
	VerifLostResp // the request is done, but the answer is lost
	Verif500      // the server refuses
	VerifHalf     // the connection breaks halfway through the body
)

// VerifNet is a set of object servers.
type VerifNet struct {
	mu      sync.Mutex
	Servers map[string]*VerifServer
	Fault   func(s *VerifServer, r *http.Request) int
	N       int // requests so far
	Open    int // bodies not closed yet
}

// VerifServName is the name of object servers in the registry.
const VerifServName = "objs"

// VerifWorld makes n object servers and a configuration with small pages.
func VerifWorld(n int, page int) *VerifNet {
	cst.OS.PageSize = page
	cst.OS.NetPkgSize = 2 * page
	w := &VerifNet{Servers: map[string]*VerifServer{}}
	ids := map[string]string{}
	for i := 0; i < n; i++ {
		s := &VerifServer{Host: "10.0.0." + strconv.Itoa(i+1) + ":80", Objects: map[string]*VerifFile{}, Temps: map[string]*VerifTemp{}}
		w.Servers[s.Host] = s
		ids["o"+strconv.Itoa(i)] = s.Host
	}
	pool.Discovery = registry.VerifDiscovery(map[string]map[string]string{VerifServName: ids})
	pool.Balancer = verifSelector{}
	pool.Config = &config.Config{}
	pool.Config.Discovery.DataServName = VerifServName
	pool.Config.Object.DistinctSize = 1 << 40
	pool.Config.Object.ReedSolomon = config.RsConfig{DataShards: 2, ParityShards: 1, BlockPerShard: page}
	pool.Config.Object.Replication = config.ReplicationConfig{CopiesCount: 2, BlockSize: datasize.DataSize(2 * page)}
	webapi.VerifTransport(httpm.Transport(w.Serve))
	return w
}

// verifSelector takes servers in order.
type verifSelector struct{}

func (verifSelector) Pop(ds []string) ([]string, string) {
	sort.Strings(ds)
	return ds[1:], ds[0]
}
func (verifSelector) Strategy() selector.SelectStrategy { return "verif" }
func (verifSelector) Select(ds []string) string {
	sort.Strings(ds)
	return ds[0]
}

// Forget removes a server from the registry.
func (w *VerifNet) Forget(s *VerifServer) {
	for i := 0; i < len(w.Servers); i++ {
		if w.At(i) == s {
			pool.Discovery.VerifRemove(VerifServName, "o"+strconv.Itoa(i))
		}
	}
}

// At returns the servers in order.
func (w *VerifNet) At(i int) *VerifServer {
	return w.Servers["10.0.0."+strconv.Itoa(i+1)+":80"]
}

func verifMessage(msg string) []byte {
	b, _ := json.Marshal(map[string]interface{}{"message": msg})
	return b
}

func verifPad(b []byte) []byte {
	r := append([]byte{}, b...)
	for len(r)%cst.OS.PageSize != 0 {
		r = append(r, 0)
	}
	return r
}

// verifBody is a body that may break.
type verifBody struct {
	w *VerifNet
	r io.Reader
	e error
	c bool
}

func (b *verifBody) Read(p []byte) (int, error) {
	n, err := b.r.Read(p)
	if err == io.EOF && b.e != nil {
		err = b.e
	}
	return n, err
}

func (b *verifBody) Close() error {
	b.w.mu.Lock()
	defer b.w.mu.Unlock()
	if !b.c {
		b.c = true
		b.w.Open--
	}
	return nil
}

func (w *VerifNet) answer(code int, head map[string]string, body []byte, half bool) *http.Response {
	r := httpm.Response(code, head, body)
	b := &verifBody{w: w, r: bytes.NewReader(body)}
	if half {
		b.r = bytes.NewReader(body[:len(body)/2])
		b.e = errors.New("connection lost")
	}
	w.Open++
	r.Body = b
	return r
}

func (w *VerifNet) Serve(r *http.Request) (*http.Response, error) {
	if r.Body != nil { // transports always close it
		defer r.Body.Close()
	}
	w.mu.Lock()
	s := w.Servers[r.URL.Host]
	w.N++
	f := VerifOK
	if s != nil && w.Fault != nil {
		f = w.Fault(s, r)
	}
	w.mu.Unlock()
	if s == nil || s.Down || f == VerifLost {
		return nil, errors.New("unreachable")
	}
	if f == Verif500 {
		w.mu.Lock()
		defer w.mu.Unlock()
		return w.answer(500, nil, verifMessage("system error"), false), nil
	}
	var body []byte
	if r.Body != nil {
		var err error
		if body, err = io.ReadAll(r.Body); err != nil {
			return nil, err
		}
	}
	if f == VerifHalf && r.Method != "GET" {
		if len(body) == 0 {
			return nil, errors.New("connection lost")
		}
		body = body[:len(body)/2]
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	code, head, out := s.handle(r, body, f == VerifHalf)
	if f == VerifLostResp || f == VerifHalf && r.Method != "GET" {
		return nil, errors.New("connection lost")
	}
	return w.answer(code, head, out, f == VerifHalf), nil
}

func (s *VerifServer) handle(r *http.Request, body []byte, half bool) (int, map[string]string, []byte) {
	p := strings.Split(strings.TrimPrefix(r.URL.Path, "/"), "/")
	bad := func(msg string) (int, map[string]string, []byte) {
		return 400, nil, verifMessage(msg)
	}
	if len(p) != 2 || p[1] == "" {
		return 404, nil, nil
	}
	name := p[1]
	size, _ := strconv.ParseInt(r.Header.Get("Size"), 10, 64)
	compress := r.URL.Query().Get("compress") == "true"
	switch r.Method + " " + p[0] {
	case "POST temp":
		s.ids++
		id := "T" + strconv.Itoa(s.ids) + "-" + name
		s.Temps[id] = &VerifTemp{Name: name, Size: size}
		return 200, nil, []byte(id)
	case "PATCH temp":
		t := s.Temps[name]
		if t == nil {
			return bad("file has been removed")
		}
		t.Made = true
		if half { // whole pages only
			body = body[:len(body)/cst.OS.PageSize*cst.OS.PageSize]
		}
		verifrt.Assert(len(t.Data)%cst.OS.PageSize == 0, "uploads are whole pages")
		t.Data = append(t.Data, verifPad(body)...)
		return 200, nil, nil
	case "PUT temp":
		t := s.Temps[name]
		if t == nil {
			return bad("file has been removed")
		}
		if s.Objects[t.Name] == nil {
			if !t.Made {
				return 404, nil, nil
			}
			s.Objects[t.Name] = &VerifFile{Data: t.Data, Compress: compress}
		}
		delete(s.Temps, name)
		return 200, nil, nil
	case "DELETE temp":
		delete(s.Temps, name)
		return 200, nil, nil
	case "HEAD temp":
		t := s.Temps[name]
		if t == nil {
			return 404, nil, nil
		}
		n := int64(len(t.Data))
		if n > t.Size {
			n = t.Size
		}
		return 200, map[string]string{"Size": strconv.FormatInt(n, 10)}, nil
	case "GET temp":
		t := s.Temps[name]
		if t == nil || size < 1 {
			return bad("file has been removed")
		}
		if !t.Made {
			return 404, nil, nil
		}
		return 200, nil, verifCut(t.Data, 0, size)
	case "HEAD objects":
		if s.Objects[name] == nil {
			return 404, nil, nil
		}
		return 200, nil, nil
	case "GET objects":
		o := s.Objects[name]
		if size == 0 {
			return bad("size required")
		}
		if o == nil {
			return 404, nil, nil
		}
		verifrt.Assert(o.Compress == compress, "an object is read as it was stored")
		off := int64(0)
		if g := r.Header.Get("Range"); g != "" {
			off, _ = strconv.ParseInt(strings.TrimSuffix(strings.TrimPrefix(g, "bytes="), "-"), 10, 64)
		}
		return 200, nil, verifCut(o.Data, off, size)
	case "PUT objects":
		if s.Objects[name] == nil {
			if half { // a partial object is not kept
				return 500, nil, nil
			}
			s.Objects[name] = &VerifFile{Data: verifPad(body), Compress: compress}
		}
		return 200, nil, nil
	}
	return 404, nil, nil
}

func verifCut(b []byte, off, size int64) []byte {
	if off > int64(len(b)) {
		off = int64(len(b))
	}
	b = b[off:]
	if int64(len(b)) > size {
		b = b[:size]
	}
	return append([]byte{}, b...)
}

// VerifMeta is the metadata of one object.
type VerifMeta struct {
	mu      sync.Mutex
	Bucket  *entity.Bucket
	Exists  bool
	Vers    []*entity.Version
	next    int32
	Fail    func(op string) error
	Updates []*entity.Version
	Removed []int32
}

func (m *VerifMeta) fail(op string) error {
	if m.Fail != nil {
		return m.Fail(op)
	}
	return nil
}

func verifCopy(v *entity.Version) *entity.Version {
	c := *v
	c.Locate = append([]string{}, v.Locate...)
	return &c
}

func (m *VerifMeta) SaveMetadata(md *entity.Metadata) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("save"); err != nil {
		return 0, err
	}
	if m.Exists {
		return 0, usecase.ErrMetadataExists
	}
	m.Exists = true
	if len(md.Versions) > 0 {
		return m.add(md.Versions[0])
	}
	return 0, nil
}

func (m *VerifMeta) add(v *entity.Version) (int32, error) {
	m.next++
	v.Sequence = m.next
	m.Vers = append(m.Vers, verifCopy(v))
	return m.next, nil
}

func (m *VerifMeta) AddVersion(name, bucket string, v *entity.Version) (int32, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("add"); err != nil {
		return -1, err
	}
	if !m.Exists {
		return -1, usecase.ErrNotFound
	}
	return m.add(v)
}

func (m *VerifMeta) UpdateVersion(name, bucket string, v *entity.Version) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("update"); err != nil {
		return err
	}
	m.Updates = append(m.Updates, verifCopy(v))
	for i, x := range m.Vers {
		if x.Sequence == v.Sequence {
			m.Vers[i] = verifCopy(v)
			return nil
		}
	}
	return usecase.ErrNotFound
}

func (m *VerifMeta) GetVersion(name, bucket string, ver int32) (*entity.Version, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("version"); err != nil {
		return nil, err
	}
	return m.find(ver)
}

func (m *VerifMeta) find(ver int32) (*entity.Version, error) {
	for i, x := range m.Vers {
		if x.Sequence == ver || ver == 0 && i == len(m.Vers)-1 {
			return verifCopy(x), nil
		}
	}
	return nil, usecase.ErrNotFound
}

func (m *VerifMeta) GetMetadata(name, bucket string, ver int32, extra bool) (*entity.Metadata, error) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("get"); err != nil {
		return nil, err
	}
	if !m.Exists {
		return nil, usecase.ErrNotFound
	}
	md := &entity.Metadata{Name: name, Bucket: bucket}
	if extra {
		md.Total = len(m.Vers)
		if len(m.Vers) > 0 {
			md.FirstVersion = int(m.Vers[0].Sequence)
			md.Extra.LastVersion = int(m.Vers[len(m.Vers)-1].Sequence)
		}
	}
	if ver != int32(entity.VerModeNot) {
		v, err := m.find(ver)
		if err != nil {
			return nil, err
		}
		md.Versions = append(md.Versions, v)
	}
	return md, nil
}

func (m *VerifMeta) RemoveVersion(name, bucket string, ver int32) error {
	m.mu.Lock()
	defer m.mu.Unlock()
	if err := m.fail("remove"); err != nil {
		return err
	}
	m.Removed = append(m.Removed, ver)
	for i, x := range m.Vers {
		if x.Sequence == ver {
			m.Vers = append(m.Vers[:i], m.Vers[i+1:]...)
			return nil
		}
	}
	return usecase.ErrNotFound
}

// VerifBuckets is a bucket repository with one bucket.
type VerifBuckets struct{ M *VerifMeta }

func (b VerifBuckets) Get(name string) (*entity.Bucket, error) {
	b.M.mu.Lock()
	defer b.M.mu.Unlock()
	if err := b.M.fail("bucket"); err != nil {
		return nil, err
	}
	if b.M.Bucket == nil || b.M.Bucket.Name != name {
		return nil, usecase.ErrNotFound
	}
	c := *b.M.Bucket
	return &c, nil
}
func (b VerifBuckets) Update(*entity.Bucket) error { return nil }
func (b VerifBuckets) Create(*entity.Bucket) error { return nil }
func (b VerifBuckets) Delete(string) error         { return nil }

// VerifReader gives data in pieces and may end early.
type VerifReader struct {
	Data []byte
	Step int
	End  error // instead of EOF
}

func (r *VerifReader) Read(p []byte) (int, error) {
	if len(r.Data) == 0 {
		if r.End != nil {
			return 0, r.End
		}
		return 0, io.EOF
	}
	n := r.Step
	if n > len(p) {
		n = len(p)
	}
	if n > len(r.Data) {
		n = len(r.Data)
	}
	copy(p, r.Data[:n])
	r.Data = r.Data[n:]
	return n, nil
}

// VerifContent makes content, all bytes of which are symbolic.
func VerifContent(n int) []byte { return verifrt.AnyBytes("data", n) }
