// Package boltm is the transactional key/value store the symbolic engine puts in place of bbolt:
// snapshot reads, single writer, all-or-nothing updates, sorted keys, nested buckets, sequences.
// Native replays use the real bbolt.
package boltm

import (
	"common/verifrt/fsm"
	"io"
	"os"
	"strconv"
	"sync"

	bolt "go.etcd.io/bbolt"
)

type buk struct {
	keys  []string
	vals  [][]byte
	subs  []*buk
	seq   uint64
	dirty bool
}

func (b *buk) clone() *buk {
	c := &buk{seq: b.seq}
	c.keys = append(c.keys, b.keys...)
	c.vals = append(c.vals, b.vals...)
	for _, s := range b.subs {
		if s != nil {
			s = s.clone()
		}
		c.subs = append(c.subs, s)
	}
	return c
}

// find returns the first position whose key is not below k.
func (b *buk) find(k string) (int, bool) {
	i := 0
	for i < len(b.keys) && b.keys[i] < k {
		i++
	}
	return i, i < len(b.keys) && b.keys[i] == k
}

func (b *buk) insert(i int, k string, v []byte, s *buk) {
	b.keys = append(b.keys, "")
	b.vals = append(b.vals, nil)
	b.subs = append(b.subs, nil)
	copy(b.keys[i+1:], b.keys[i:])
	copy(b.vals[i+1:], b.vals[i:])
	copy(b.subs[i+1:], b.subs[i:])
	b.keys[i], b.vals[i], b.subs[i] = k, v, s
}

func (b *buk) del(i int) {
	b.keys = append(append([]string{}, b.keys[:i]...), b.keys[i+1:]...)
	b.vals = append(append([][]byte{}, b.vals[:i]...), b.vals[i+1:]...)
	b.subs = append(append([]*buk{}, b.subs[:i]...), b.subs[i+1:]...)
}

type dbm struct {
	path   string
	root   *buk
	wr     sync.Mutex
	closed bool
	stale  [][]byte // handed out by transactions that ended
}

type txm struct {
	out  [][]byte
	db   *bolt.DB
	d    *dbm
	root *buk
	w    bool
	done bool
	on   []func()
	hs   map[*buk]*bolt.Bucket
}

type handle struct {
	t *txm
	b *buk
}

type cursor struct {
	h    *handle
	live bool
	snap *buk
	i    int
}

var (
	mu    sync.Mutex
	dbs   = map[*bolt.DB]*dbm{}
	txs   = map[*bolt.Tx]*txm{}
	bs    = map[*bolt.Bucket]*handle{}
	cs    = map[*bolt.Cursor]*cursor{}
	saved = map[string]*buk{}
	// Syncs counts DB.Sync calls. SyncErr is what the next calls return.
	Syncs   int
	SyncErr error
	// CommitErr makes the next commits fail.
	CommitErr error
	// Commits counts successful write transactions.
	Commits int
)

const magic = "boltm:"

func (d *dbm) persist() {
	id := magic + strconv.Itoa(len(saved))
	saved[id] = d.root
	fsm.Put(d.path, []byte(id))
}

//gosym:model go.etcd.io/bbolt.Open
func zzOpen(path string, mode os.FileMode, o *bolt.Options) (*bolt.DB, error) {
	d := &dbm{path: path, root: &buk{}}
	if n := fsm.Get(path); n != nil && len(n.Data) > 0 {
		r := saved[string(n.Data)]
		if r == nil {
			return nil, bolt.ErrInvalid
		}
		d.root = r
	} else {
		if f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, mode); err != nil {
			return nil, err
		} else {
			f.Close()
		}
		d.persist()
	}
	db := new(bolt.DB)
	dbs[db] = d
	return db, nil
}

//gosym:model (*go.etcd.io/bbolt.DB).Path
func zzPath(db *bolt.DB) string { return dbs[db].path }

//gosym:model (*go.etcd.io/bbolt.DB).Close
func zzClose(db *bolt.DB) error {
	d := dbs[db]
	d.wr.Lock()
	d.closed = true
	d.wr.Unlock()
	return nil
}

//gosym:model (*go.etcd.io/bbolt.DB).Sync
func zzSync(db *bolt.DB) error {
	Syncs++
	return SyncErr
}

//gosym:model (*go.etcd.io/bbolt.DB).Begin
func zzBegin(db *bolt.DB, w bool) (*bolt.Tx, error) {
	d := dbs[db]
	if w {
		d.wr.Lock()
	}
	if d.closed {
		if w {
			d.wr.Unlock()
		}
		return nil, bolt.ErrDatabaseNotOpen
	}
	mu.Lock()
	root := d.root
	mu.Unlock()
	if w {
		root = root.clone()
	}
	tx := new(bolt.Tx)
	txs[tx] = &txm{db: db, d: d, root: root, w: w, hs: map[*buk]*bolt.Bucket{}}
	return tx, nil
}

//gosym:model (*go.etcd.io/bbolt.Tx).Rollback
func zzRollback(tx *bolt.Tx) error {
	t := txs[tx]
	if t.done {
		return bolt.ErrTxClosed
	}
	t.done = true
	if t.w {
		t.d.wr.Unlock()
	} else {
		t.d.stale = append(t.d.stale, t.out...)
	}
	return nil
}

// give hands out a value of the database file. Once its transaction has ended, the pages it lies in
// are reused by later writes.
func (t *txm) give(b []byte) []byte {
	if t.w || b == nil {
		return b
	}
	c := append([]byte{}, b...)
	t.out = append(t.out, c)
	return c
}

//gosym:model (*go.etcd.io/bbolt.Tx).Commit
func zzCommit(tx *bolt.Tx) error {
	t := txs[tx]
	if t.done {
		return bolt.ErrTxClosed
	}
	if !t.w {
		return bolt.ErrTxNotWritable
	}
	if CommitErr != nil {
		zzRollback(tx)
		return CommitErr
	}
	t.done = true
	mu.Lock()
	t.d.root = t.root.clone()
	t.d.persist()
	for _, b := range t.d.stale {
		for i := range b {
			b[i] = 0xee
		}
	}
	t.d.stale = nil
	Commits++
	mu.Unlock()
	t.d.wr.Unlock()
	for _, f := range t.on {
		f()
	}
	return nil
}

func run(tx *bolt.Tx, fn func(*bolt.Tx) error) (err error) {
	ok := false
	defer func() {
		if !ok && !txs[tx].done {
			zzRollback(tx)
		}
	}()
	err = fn(tx)
	ok = true
	return
}

//gosym:model (*go.etcd.io/bbolt.DB).Update
func zzUpdate(db *bolt.DB, fn func(*bolt.Tx) error) error {
	tx, err := zzBegin(db, true)
	if err != nil {
		return err
	}
	if err = run(tx, fn); err != nil {
		zzRollback(tx)
		return err
	}
	return zzCommit(tx)
}

//gosym:model (*go.etcd.io/bbolt.DB).View
func zzView(db *bolt.DB, fn func(*bolt.Tx) error) error {
	tx, err := zzBegin(db, false)
	if err != nil {
		return err
	}
	err = run(tx, fn)
	if e := zzRollback(tx); err == nil {
		err = e
	}
	return err
}

// Batch runs a failing function once more, alone, as bbolt does.
//
//gosym:model (*go.etcd.io/bbolt.DB).Batch
func zzBatch(db *bolt.DB, fn func(*bolt.Tx) error) error {
	if zzUpdate(db, fn) == nil {
		return nil
	}
	return zzUpdate(db, fn)
}

//gosym:model (*go.etcd.io/bbolt.Tx).Writable
func zzTxWritable(tx *bolt.Tx) bool { return txs[tx].w }

//gosym:model (*go.etcd.io/bbolt.Tx).DB
func zzTxDB(tx *bolt.Tx) *bolt.DB { return txs[tx].db }

//gosym:model (*go.etcd.io/bbolt.Tx).OnCommit
func zzOnCommit(tx *bolt.Tx, f func()) { txs[tx].on = append(txs[tx].on, f) }

//gosym:model (*go.etcd.io/bbolt.Tx).WriteTo
func zzWriteTo(tx *bolt.Tx, w io.Writer) (int64, error) {
	t := txs[tx]
	id := magic + strconv.Itoa(len(saved))
	saved[id] = t.root
	n, err := w.Write([]byte(id))
	return int64(n), err
}

func (t *txm) open(b *buk) *bolt.Bucket {
	if o := t.hs[b]; o != nil {
		return o
	}
	o := new(bolt.Bucket)
	o.FillPercent = bolt.DefaultFillPercent
	bs[o] = &handle{t, b}
	t.hs[b] = o
	return o
}

func (h *handle) live() {
	if h.t.done {
		panic("tx closed")
	}
}

func (h *handle) bucket(name []byte) *bolt.Bucket {
	h.live()
	i, ok := h.b.find(string(name))
	if !ok || h.b.subs[i] == nil {
		return nil
	}
	return h.t.open(h.b.subs[i])
}

func (h *handle) create(name []byte) (*bolt.Bucket, error) {
	if h.t.done {
		return nil, bolt.ErrTxClosed
	}
	if !h.t.w {
		return nil, bolt.ErrTxNotWritable
	}
	if len(name) == 0 {
		return nil, bolt.ErrBucketNameRequired
	}
	k := string(name)
	i, ok := h.b.find(k)
	if ok {
		if h.b.subs[i] != nil {
			return nil, bolt.ErrBucketExists
		}
		return nil, bolt.ErrIncompatibleValue
	}
	s := &buk{dirty: true}
	h.b.insert(i, k, nil, s)
	h.b.dirty = true
	return h.t.open(s), nil
}

func (h *handle) createIf(name []byte) (*bolt.Bucket, error) {
	b, err := h.create(name)
	if err == bolt.ErrBucketExists {
		return h.bucket(name), nil
	}
	return b, err
}

func (h *handle) deleteBucket(name []byte) error {
	if h.t.done {
		return bolt.ErrTxClosed
	}
	if !h.t.w {
		return bolt.ErrTxNotWritable
	}
	i, ok := h.b.find(string(name))
	if !ok {
		return bolt.ErrBucketNotFound
	}
	if h.b.subs[i] == nil {
		return bolt.ErrIncompatibleValue
	}
	h.b.del(i)
	h.b.dirty = true
	return nil
}

func rootOf(tx *bolt.Tx) *handle { return &handle{txs[tx], txs[tx].root} }

//gosym:model (*go.etcd.io/bbolt.Tx).Bucket
func zzTxBucket(tx *bolt.Tx, name []byte) *bolt.Bucket { return rootOf(tx).bucket(name) }

//gosym:model (*go.etcd.io/bbolt.Tx).CreateBucket
func zzTxCreate(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) { return rootOf(tx).create(name) }

//gosym:model (*go.etcd.io/bbolt.Tx).CreateBucketIfNotExists
func zzTxCreateIf(tx *bolt.Tx, name []byte) (*bolt.Bucket, error) { return rootOf(tx).createIf(name) }

//gosym:model (*go.etcd.io/bbolt.Tx).DeleteBucket
func zzTxDelete(tx *bolt.Tx, name []byte) error { return rootOf(tx).deleteBucket(name) }

//gosym:model (*go.etcd.io/bbolt.Tx).ForEach
func zzTxForEach(tx *bolt.Tx, fn func([]byte, *bolt.Bucket) error) error {
	h := rootOf(tx)
	for i := range h.b.keys {
		if err := fn([]byte(h.b.keys[i]), h.t.open(h.b.subs[i])); err != nil {
			return err
		}
	}
	return nil
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Bucket
func zzBucket(b *bolt.Bucket, name []byte) *bolt.Bucket { return bs[b].bucket(name) }

//gosym:model (*go.etcd.io/bbolt.Bucket).CreateBucket
func zzCreate(b *bolt.Bucket, name []byte) (*bolt.Bucket, error) { return bs[b].create(name) }

//gosym:model (*go.etcd.io/bbolt.Bucket).CreateBucketIfNotExists
func zzCreateIf(b *bolt.Bucket, name []byte) (*bolt.Bucket, error) { return bs[b].createIf(name) }

//gosym:model (*go.etcd.io/bbolt.Bucket).DeleteBucket
func zzDeleteBucket(b *bolt.Bucket, name []byte) error { return bs[b].deleteBucket(name) }

//gosym:model (*go.etcd.io/bbolt.Bucket).Get
func zzGet(b *bolt.Bucket, key []byte) []byte {
	h := bs[b]
	h.live()
	i, ok := h.b.find(string(key))
	if !ok || h.b.subs[i] != nil {
		return nil
	}
	return h.t.give(h.b.vals[i])
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Put
func zzPut(b *bolt.Bucket, key, value []byte) error {
	h := bs[b]
	if h.t.done {
		return bolt.ErrTxClosed
	}
	if !h.t.w {
		return bolt.ErrTxNotWritable
	}
	if len(key) == 0 {
		return bolt.ErrKeyRequired
	}
	if len(key) > bolt.MaxKeySize {
		return bolt.ErrKeyTooLarge
	}
	k := string(key)
	v := append([]byte{}, value...)
	i, ok := h.b.find(k)
	h.b.dirty = true
	if ok {
		if h.b.subs[i] != nil {
			return bolt.ErrIncompatibleValue
		}
		vals := append([][]byte{}, h.b.vals...)
		vals[i] = v
		h.b.vals = vals
		return nil
	}
	h.b.insert(i, k, v, nil)
	return nil
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Delete
func zzDelete(b *bolt.Bucket, key []byte) error {
	h := bs[b]
	if h.t.done {
		return bolt.ErrTxClosed
	}
	if !h.t.w {
		return bolt.ErrTxNotWritable
	}
	i, ok := h.b.find(string(key))
	if !ok {
		return nil
	}
	if h.b.subs[i] != nil {
		return bolt.ErrIncompatibleValue
	}
	h.b.del(i)
	h.b.dirty = true
	return nil
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Writable
func zzWritable(b *bolt.Bucket) bool { return bs[b].t.w }

//gosym:model (*go.etcd.io/bbolt.Bucket).Sequence
func zzSequence(b *bolt.Bucket) uint64 { return bs[b].b.seq }

//gosym:model (*go.etcd.io/bbolt.Bucket).SetSequence
func zzSetSequence(b *bolt.Bucket, v uint64) error {
	h := bs[b]
	if h.t.done {
		return bolt.ErrTxClosed
	}
	if !h.t.w {
		return bolt.ErrTxNotWritable
	}
	h.b.seq = v
	h.b.dirty = true
	return nil
}

//gosym:model (*go.etcd.io/bbolt.Bucket).NextSequence
func zzNextSequence(b *bolt.Bucket) (uint64, error) {
	h := bs[b]
	if h.t.done {
		return 0, bolt.ErrTxClosed
	}
	if !h.t.w {
		return 0, bolt.ErrTxNotWritable
	}
	h.b.seq++
	h.b.dirty = true
	return h.b.seq, nil
}

func (b *buk) count() int {
	n := len(b.keys)
	for _, s := range b.subs {
		if s != nil {
			n += s.count()
		}
	}
	return n
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Stats
func zzStats(b *bolt.Bucket) bolt.BucketStats {
	h := bs[b]
	h.live()
	return bolt.BucketStats{KeyN: h.b.count(), BucketN: 1}
}

//gosym:model (*go.etcd.io/bbolt.Bucket).ForEach
func zzForEach(b *bolt.Bucket, fn func(k, v []byte) error) error {
	h := bs[b]
	if h.t.done {
		return bolt.ErrTxClosed
	}
	c := zzCursor(b)
	for k, v := zzFirst(c); k != nil; k, v = zzNext(c) {
		if err := fn(k, v); err != nil {
			return err
		}
	}
	return nil
}

//gosym:model (*go.etcd.io/bbolt.Tx).Cursor
func zzTxCursor(tx *bolt.Tx) *bolt.Cursor {
	c := new(bolt.Cursor)
	cs[c] = &cursor{h: rootOf(tx)}
	return c
}

//gosym:model (*go.etcd.io/bbolt.Bucket).Cursor
func zzCursor(b *bolt.Bucket) *bolt.Cursor {
	c := new(bolt.Cursor)
	cs[c] = &cursor{h: bs[b]}
	return c
}

// position starts an iteration. As in bbolt, a bucket changed earlier in the transaction is iterated
// in place, so that deleting shifts what follows; an unchanged one is iterated as it was.
func (c *cursor) start() {
	c.h.live()
	c.live = c.h.b.dirty
	c.snap = c.h.b
	if !c.live {
		s := *c.h.b
		c.snap = &s
	}
}

func (c *cursor) at() ([]byte, []byte) {
	if c.i < 0 || c.i >= len(c.snap.keys) {
		return nil, nil
	}
	if c.snap.subs[c.i] != nil {
		return []byte(c.snap.keys[c.i]), nil
	}
	return c.h.t.give([]byte(c.snap.keys[c.i])), c.h.t.give(c.snap.vals[c.i])
}

//gosym:model (*go.etcd.io/bbolt.Cursor).First
func zzFirst(x *bolt.Cursor) ([]byte, []byte) {
	c := cs[x]
	c.start()
	c.i = 0
	return c.at()
}

//gosym:model (*go.etcd.io/bbolt.Cursor).Last
func zzLast(x *bolt.Cursor) ([]byte, []byte) {
	c := cs[x]
	c.start()
	c.i = len(c.snap.keys) - 1
	return c.at()
}

//gosym:model (*go.etcd.io/bbolt.Cursor).Seek
func zzSeek(x *bolt.Cursor, k []byte) ([]byte, []byte) {
	c := cs[x]
	c.start()
	c.i, _ = c.snap.find(string(k))
	return c.at()
}

//gosym:model (*go.etcd.io/bbolt.Cursor).Next
func zzNext(x *bolt.Cursor) ([]byte, []byte) {
	c := cs[x]
	c.h.live()
	if c.i+1 >= len(c.snap.keys) {
		return nil, nil
	}
	c.i++
	return c.at()
}

//gosym:model (*go.etcd.io/bbolt.Cursor).Prev
func zzPrev(x *bolt.Cursor) ([]byte, []byte) {
	c := cs[x]
	c.h.live()
	if c.i <= 0 {
		return nil, nil
	}
	c.i--
	return c.at()
}

//gosym:model (*go.etcd.io/bbolt.Cursor).Delete
func zzCDelete(x *bolt.Cursor) error {
	c := cs[x]
	if !c.h.t.w {
		return bolt.ErrTxNotWritable
	}
	if c.snap.subs[c.i] != nil {
		return bolt.ErrIncompatibleValue
	}
	i, ok := c.h.b.find(c.snap.keys[c.i])
	if ok {
		c.h.b.del(i)
		c.h.b.dirty = true
	}
	return nil
}
