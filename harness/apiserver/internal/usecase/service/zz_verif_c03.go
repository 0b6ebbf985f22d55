package service

import (
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/datasize"
	"common/util/crypto"
	"common/verifrt"
	"errors"
	"io"
	"net/http"
)

func zzService(m *VerifMeta) *ObjectService { return NewObjectService(m, VerifBuckets{m}, nil) }

func zzReadAll(r io.Reader, step int) ([]byte, error) {
	var out []byte
	buf := make([]byte, step)
	for i := 0; i < 100000; i++ {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return out, err
		}
	}
	verifrt.Assert(false, "reading ends")
	return out, nil
}

func zzPutHash(o *ObjectService, data []byte, hash string, ss entity.ObjectStrategy, compress bool, r io.Reader) (int32, error) {
	n, err := o.StoreObject(&entity.PutReq{Name: "a.txt", Bucket: "b", Hash: hash, Store: ss, Compress: compress, Body: r},
		&entity.Metadata{Name: "a.txt", Bucket: "b", Versions: []*entity.Version{{Size: int64(len(data)), Hash: hash, StoreStrategy: ss, Compress: compress}}})
	verifrt.Drain()
	return n, err
}

func zzPut(o *ObjectService, data []byte, ss entity.ObjectStrategy, compress bool, r io.Reader) (int32, error) {
	return zzPutHash(o, data, "digest", ss, compress, r)
}

func zzGet(o *ObjectService, m *VerifMeta, ver int32, step int) ([]byte, error) {
	b, err, inner := zzGetClose(o, m, ver, step)
	if err == nil {
		err = inner
	}
	return b, err
}

// zzGetClose reads an object and returns the errors of reading and closing.
func zzGetClose(o *ObjectService, m *VerifMeta, ver int32, step int) ([]byte, error, error) {
	md, err := m.GetMetadata("a.txt", "b", ver, false)
	verifrt.Assert(err == nil, "the metadata is known")
	s, err := o.GetObject(md, md.Versions[0])
	if err != nil {
		return nil, err, nil
	}
	b, err := zzReadAll(s, step)
	inner := s.Close()
	verifrt.Drain()
	return b, err, inner
}

func zzStrategy() entity.ObjectStrategy {
	return []entity.ObjectStrategy{entity.ECReedSolomon, entity.MultiReplication}[verifrt.Choice("strategy", 2)]
}

// What is stored is read back byte for byte.
//
//gosym:with common/registry/zz_verif_discovery.go
//gosym:with apiserver/internal/usecase/webapi/zz_verif_support.go
//gosym:with apiserver/internal/usecase/service/zz_verif_world.go
//gosym:harness C03 quick=60s thorough=600s
func VerifC03Store() {
	verifrt.Terminates(3000000)
	w := VerifWorld(4, 16)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	ss := zzStrategy()
	n := []int{1, 2, 3, 16, 31, 32, 33, 64, 65, 100}[verifrt.Choice("size", 10)]
	data := VerifContent(n)
	step := []int{1000, 10, 32}[verifrt.Choice("pieces", 3)]
	compress := verifrt.Choice("compress", 2) == 1
	ver, err := zzPut(o, data, ss, compress, &VerifReader{Data: data, Step: step})
	verifrt.Assert(err == nil && ver == 1, "an object is stored")
	got, err := zzGet(o, m, ver, []int{1000, 7}[verifrt.Choice("read", 2)])
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "a stored object is read as it was stored")
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// Any numbers of shards and any block size of the configuration or bucket.
//
//gosym:harness C03 quick=100s thorough=600s
func VerifC03Shards() {
	verifrt.Terminates(3000000)
	w := VerifWorld(4, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	ds := 1 + verifrt.Choice("data shards", verifrt.Bound("data shards", 4, 6))
	ps := verifrt.Choice("parity shards", 3)
	if verifrt.Choice("of bucket", 2) == 1 {
		m.Bucket.StoreStrategy = entity.ECReedSolomon
		m.Bucket.DataShards, m.Bucket.ParityShards = ds, ps
	} else {
		pool.Config.Object.ReedSolomon.DataShards, pool.Config.Object.ReedSolomon.ParityShards = ds, ps
	}
	pool.Config.Object.ReedSolomon.BlockPerShard = 1 + verifrt.Choice("block", 9)
	// blocks of a shard are 4, 8 or 12 bytes
	n := []int{1, ds, ds + 1, 4*ds - 1, 4 * ds, 4*ds + 1, 8*ds - 1, 8 * ds, 12*ds + 1, 16 * ds, 25*ds + 3}[verifrt.Choice("size", 11)]
	data := VerifContent(n)
	_, err := zzPut(o, data, entity.ECReedSolomon, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	got, err := zzGet(o, m, 1, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "a stored object is read as it was stored")
	verifrt.Assert(len(m.Vers[0].Locate) == ds+ps, "every shard has a place")
	shards := 0
	for _, s := range w.Servers {
		shards += len(s.Objects)
	}
	verifrt.Assert(shards == ds+ps, "every shard is stored")
	verifrt.Reach("read")
}

// Any number of copies and any block size.
//
//gosym:harness C03 quick=40s thorough=600s
func VerifC03Copies() {
	verifrt.Terminates(3000000)
	w := VerifWorld(3, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	k := 1 + verifrt.Choice("copies", 4)
	if verifrt.Choice("of bucket", 2) == 1 {
		m.Bucket.StoreStrategy = entity.MultiReplication
		m.Bucket.DataShards = k
	} else {
		pool.Config.Object.Replication.CopiesCount = k
	}
	b := 8 * (1 + verifrt.Choice("block", 3)) // aligned when the configuration is read
	pool.Config.Object.Replication.BlockSize = datasize.DataSize(b)
	n := []int{1, 3, 4, 5, b - 1, b, b + 1, 2 * b, 2*b + 3}[verifrt.Choice("size", 9)]
	data := VerifContent(n)
	_, err := zzPut(o, data, entity.MultiReplication, false, &VerifReader{Data: data, Step: []int{1000, 3}[verifrt.Choice("pieces", 2)]})
	verifrt.Assert(err == nil, "an object is stored")
	for i := 0; i < k; i++ { // every copy alone
		md, _ := m.GetMetadata("a.txt", "b", 1, false)
		ip := md.Versions[0].Locate[i]
		s, err := NewGetStream(ip, md.Versions[0].Hash+"."+string(rune('0'+i)), int64(n), false)
		verifrt.Assert(err == nil, "every copy is stored")
		got, err := zzReadAll(s, 1000)
		verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "every copy is the object")
		s.Close()
	}
	got, err := zzGet(o, m, 1, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "a stored object is read as it was stored")
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// A request to an object server fails: either the object is stored or no version is left.
//
//gosym:harness C03 quick=100s thorough=600s
func VerifC03Fault() {
	verifrt.Terminates(3000000)
	ss := zzStrategy()
	data := VerifContent([]int{1, 20, 35}[verifrt.Choice("size", 3)])
	// what is stored without a fault
	whole := map[string][]byte{}
	w0 := VerifWorld(4, 4)
	_, err := zzPut(zzService(&VerifMeta{Bucket: &entity.Bucket{Name: "b"}}), data, ss, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	for _, s := range w0.Servers {
		for k, f := range s.Objects {
			whole[k] = f.Data
		}
	}
	w := VerifWorld(4, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 9}}
	o := zzService(m)
	method := []string{"POST", "PATCH", "PUT"}[verifrt.Choice("request", 3)]
	which := verifrt.Choice("which", 3)
	nth := verifrt.Choice("nth", verifrt.Bound("nth", 3, 4))
	kind := VerifLost + verifrt.Choice("fault", 4)
	seen, hit := 0, false
	w.Fault = func(s *VerifServer, r *http.Request) int {
		if r.Method == method && s == w.At(which) {
			if seen++; seen == nth+1 {
				hit = true
				return kind
			}
		}
		return VerifOK
	}
	ver, err := zzPut(o, data, ss, false, &VerifReader{Data: data, Step: 1000})
	w.Fault = nil
	verifrt.Assume(hit)
	if err != nil {
		verifrt.Assert(len(m.Vers) == 0, "a failed upload leaves no version")
	} else {
		// before it is read, which restores what is lost
		for i, l := range m.Vers[0].Locate {
			name := m.Vers[0].Hash + "." + string(rune('0'+i))
			f := w.Servers[l].Objects[name]
			verifrt.Assert(f != nil, "an upload which succeeds has all shards")
			verifrt.Assert(len(f.Data) == len(whole[name]) && verifrt.EqBytes(f.Data, whole[name]), "an upload which succeeds has all of every shard")
		}
		got, err := zzGet(o, m, ver, 1000)
		verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "an upload which succeeds is complete")
	}
	verifrt.Assert(w.Open == 0, "all responses are closed")
	// what is left doesn't disturb uploading it again
	ver, err = zzPut(o, data, ss, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "the object is stored later")
	got, err := zzGet(o, m, ver, 1000)
	verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "and is read as it was stored")
	verifrt.Reach("again")
}

// The client goes away in the middle of upload, or the metadata isn't saved.
//
//gosym:harness C03 quick=40s thorough=300s
func VerifC03Broken() {
	verifrt.Terminates(3000000)
	w := VerifWorld(4, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	ss := zzStrategy()
	n := []int{1, 20, 35}[verifrt.Choice("size", 3)]
	data := VerifContent(n)
	rd := &VerifReader{Data: data, Step: []int{1000, 5}[verifrt.Choice("pieces", 2)]}
	what := verifrt.Choice("what", 4)
	switch what {
	case 0:
		rd.Data, rd.End = data[:verifrt.Choice("given", n)], io.ErrUnexpectedEOF
	case 1:
		m.Fail = func(op string) error {
			if op == "save" {
				return errors.New("no metadata server")
			}
			return nil
		}
	case 2:
		m.Bucket.Readonly = true
	case 3:
		for _, s := range w.Servers {
			s.Down = true
		}
	}
	_, err := zzPut(o, data, ss, false, rd)
	verifrt.Assert(err != nil && len(m.Vers) == 0, "a failed upload is told and leaves no version")
	if what == 0 || what == 2 {
		for _, s := range w.Servers {
			verifrt.Assert(len(s.Objects) == 0 && len(s.Temps) == 0, "a broken upload leaves nothing")
		}
	}
	verifrt.Reach("failed")
}

// The checksum of content is validated if configured.
//
//gosym:harness C03 quick=40s thorough=300s
func VerifC03Checksum() {
	verifrt.Terminates(3000000)
	w := VerifWorld(4, 4)
	pool.Config.Object.Checksum = true
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	ss := zzStrategy()
	n := []int{1, 20, 35}[verifrt.Choice("size", 3)]
	data := make([]byte, n)
	for i := range data {
		data[i] = byte(i * 3)
	}
	sent := append([]byte{}, data...)
	if k := verifrt.Choice("changed", n+1); k < n {
		sent[k] ^= byte(1 << verifrt.Choice("bit", 2))
	}
	same := string(sent) == string(data)
	ver, err := zzPutHash(o, data, crypto.SHA256(data), ss, false, &VerifReader{Data: sent, Step: 7})
	verifrt.Assert((err == nil) == same, "an object is stored if its content has the checksum")
	if same {
		got, err := zzGet(o, m, ver, 1000)
		verifrt.Assert(err == nil && verifrt.EqBytes(got, data), "a stored object is read as it was stored")
	} else {
		verifrt.Assert(len(m.Vers) == 0, "refused content leaves no version")
		for _, s := range w.Servers {
			verifrt.Assert(len(s.Objects) == 0 && len(s.Temps) == 0, "refused content leaves nothing")
		}
	}
	verifrt.Reach("validated")
}

// A new version doesn't change the former ones.
//
//gosym:harness C03 quick=40s thorough=300s
func VerifC03Versions() {
	verifrt.Terminates(3000000)
	w := VerifWorld(4, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b", Versioning: true, VersionRemains: 9}}
	o := zzService(m)
	k := verifrt.Bound("versions", 2, 3)
	var all [][]byte
	for i := 0; i < k; i++ {
		data := VerifContent([]int{3, 20}[verifrt.Choice("size", 2)])
		hash := "digest" + string(rune('0'+i))
		if i > 0 && verifrt.Choice("same content", 2) == 1 {
			data, hash = all[0], "digest0"
		}
		ver, err := zzPutHash(o, data, hash, zzStrategy(), verifrt.Choice("compress", 2) == 1, &VerifReader{Data: data, Step: 9})
		verifrt.Assert(err == nil && int(ver) == i+1, "a version is stored")
		all = append(all, data)
	}
	for i := range all {
		got, err := zzGet(o, m, int32(i+1), 1000)
		verifrt.Assert(err == nil && verifrt.EqBytes(got, all[i]), "every version is read as it was stored")
	}
	verifrt.Assert(w.Open == 0, "all responses are closed")
	verifrt.Reach("read")
}

// Shards are sent at the same time.
//
//gosym:harness C03 quick=60s thorough=600s
func VerifC03Parallel() {
	verifrt.Terminates(3000000)
	w := VerifWorld(2, 4)
	pool.Config.Object.ReedSolomon.DataShards, pool.Config.Object.ReedSolomon.BlockPerShard = 1, 8
	ss := zzStrategy()
	n := []int{6, 10}[verifrt.Choice("size", 2)]
	data := VerifContent(n)
	ver := &entity.Version{Size: int64(n), Hash: "h", StoreStrategy: ss, DataShards: 1, ParityShards: 1}
	if ss == entity.MultiReplication {
		ver.DataShards, ver.ParityShards = 2, 0
	}
	sp := NewStreamProvider(&StreamOption{Hash: "h", Size: int64(n)}, ver)
	s, err := sp.PutStream([]string{w.At(0).Host, w.At(1).Host})
	verifrt.Assert(err == nil, "an upload starts")
	verifrt.Schedules(verifrt.Bound("preemptions", 0, 1))
	_, err = s.Write(data)
	if err == nil {
		err = s.Commit(true)
	}
	verifrt.EndSchedules()
	verifrt.Assert(err == nil, "an object is stored")
	for i := 0; i < 2; i++ {
		o := w.At(i).Objects["h."+string(rune('0'+i))]
		verifrt.Assert(o != nil, "an upload which succeeds has all shards")
		verifrt.Assert(verifrt.EqBytes(o.Data, verifPad(data)), "every shard is complete")
	}
	verifrt.Reach("stored")
}

// An object is read as it was stored after the configured size of blocks has changed.
//
//gosym:harness C03 quick=40s thorough=300s
func VerifC03BlockSize() {
	verifrt.Terminates(3000000)
	VerifWorld(4, 4)
	m := &VerifMeta{Bucket: &entity.Bucket{Name: "b"}}
	o := zzService(m)
	ss := zzStrategy()
	n := []int{3, 20}[verifrt.Choice("size", 2)]
	data := VerifContent(n)
	_, err := zzPut(o, data, ss, false, &VerifReader{Data: data, Step: 1000})
	verifrt.Assert(err == nil, "an object is stored")
	other := verifrt.Choice("block", 2) == 1
	if other {
		pool.Config.Object.ReedSolomon.BlockPerShard *= 2
		pool.Config.Object.Replication.BlockSize *= 2
	}
	got, err := zzGet(o, m, 1, 1000)
	verifrt.Assert(err == nil, "a stored object is readable")
	same := verifrt.EqBytes(got, data)
	verifrt.Finding("rs-block-size-changed", verifrt.And(other && ss == entity.ECReedSolomon && n > 8, verifrt.Not(same)))
	verifrt.Assert(same, "an object is read as it was stored after the block size has changed")
	verifrt.Reach("read")
}
