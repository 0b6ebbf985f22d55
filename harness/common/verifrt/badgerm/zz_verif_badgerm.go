// Package badgerm is the transactional key/value store the symbolic engine puts in place of badger:
// snapshot reads, optimistic transactions that fail with ErrConflict when a key they read changed,
// sorted keys. Native replays use the real badger.
package badgerm

import (
	"sync"

	badger "github.com/dgraph-io/badger/v3"
)

type ent struct {
	k   string
	v   []byte
	ver uint64
}

type dbm struct {
	ents   []ent
	ts     uint64
	closed bool
	last   map[string]uint64 // version of the last change of a key, removals included
}

type txm struct {
	db    *badger.DB
	d     *dbm
	snap  []ent
	ts    uint64
	w     bool
	done  bool
	reads []string
	pend  []pend
}

type pend struct {
	k   string
	v   []byte
	del bool
}

type itm struct {
	t *txm
	e ent
}

type itr struct {
	t    *txm
	list []ent
	i    int
	item *badger.Item
	pre  []byte
}

var (
	mu    sync.Mutex
	dbs   = map[*badger.DB]*dbm{}
	txs   = map[*badger.Txn]*txm{}
	items = map[*badger.Item]*itm{}
	itrs  = map[*badger.Iterator]*itr{}
	// CommitErr makes the next commits fail.
	CommitErr error
)

//gosym:model github.com/dgraph-io/badger/v3.Open
func zzOpen(o badger.Options) (*badger.DB, error) {
	db := new(badger.DB)
	dbs[db] = &dbm{last: map[string]uint64{}}
	return db, nil
}

// New is an empty store; it is for the engine only.
func New() *badger.DB {
	db, _ := zzOpen(badger.Options{})
	return db
}

//gosym:model (*github.com/dgraph-io/badger/v3.DB).Close
func zzClose(db *badger.DB) error { dbs[db].closed = true; return nil }

//gosym:model (*github.com/dgraph-io/badger/v3.DB).NewTransaction
func zzNewTransaction(db *badger.DB, w bool) *badger.Txn {
	mu.Lock()
	defer mu.Unlock()
	d := dbs[db]
	x := new(badger.Txn)
	txs[x] = &txm{db: db, d: d, snap: append([]ent{}, d.ents...), ts: d.ts, w: w}
	return x
}

//gosym:model (*github.com/dgraph-io/badger/v3.DB).View
func zzView(db *badger.DB, fn func(*badger.Txn) error) error {
	if dbs[db].closed {
		return badger.ErrDBClosed
	}
	x := zzNewTransaction(db, false)
	defer zzDiscard(x)
	return fn(x)
}

//gosym:model (*github.com/dgraph-io/badger/v3.DB).Update
func zzUpdate(db *badger.DB, fn func(*badger.Txn) error) error {
	if dbs[db].closed {
		return badger.ErrDBClosed
	}
	x := zzNewTransaction(db, true)
	defer zzDiscard(x)
	if err := fn(x); err != nil {
		return err
	}
	return zzCommit(x)
}

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).Discard
func zzDiscard(x *badger.Txn) { txs[x].done = true }

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).Commit
func zzCommit(x *badger.Txn) error {
	mu.Lock()
	defer mu.Unlock()
	t := txs[x]
	if t.done {
		return badger.ErrDiscardedTxn
	}
	t.done = true
	if len(t.pend) == 0 {
		return nil
	}
	for _, k := range t.reads {
		if t.d.last[k] > t.ts {
			return badger.ErrConflict
		}
	}
	if CommitErr != nil {
		return CommitErr
	}
	t.d.ts++
	for _, p := range t.pend {
		t.d.last[p.k] = t.d.ts
		t.d.ents = apply(t.d.ents, p, t.d.ts)
	}
	return nil
}

func apply(es []ent, p pend, ver uint64) []ent {
	out := make([]ent, 0, len(es)+1)
	put := false
	for _, e := range es {
		if e.k == p.k {
			continue
		}
		if !put && !p.del && e.k > p.k {
			out = append(out, ent{p.k, p.v, ver})
			put = true
		}
		out = append(out, e)
	}
	if !put && !p.del {
		out = append(out, ent{p.k, p.v, ver})
	}
	return out
}

func (t *txm) modify(p pend) error {
	if !t.w {
		return badger.ErrReadOnlyTxn
	}
	if t.done {
		return badger.ErrDiscardedTxn
	}
	if p.k == "" {
		return badger.ErrEmptyKey
	}
	t.pend = append(t.pend, p)
	return nil
}

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).Set
func zzSet(x *badger.Txn, k, v []byte) error {
	return txs[x].modify(pend{string(k), append([]byte{}, v...), false})
}

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).Delete
func zzDelete(x *badger.Txn, k []byte) error {
	return txs[x].modify(pend{string(k), nil, true})
}

func (t *txm) view() []ent {
	es := t.snap
	for _, p := range t.pend {
		es = apply(es, p, t.ts)
	}
	return es
}

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).Get
func zzGet(x *badger.Txn, k []byte) (*badger.Item, error) {
	t := txs[x]
	if len(k) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if t.done {
		return nil, badger.ErrDiscardedTxn
	}
	key := string(k)
	t.reads = append(t.reads, key)
	for _, e := range t.view() {
		if e.k == key {
			i := new(badger.Item)
			items[i] = &itm{t, e}
			return i, nil
		}
	}
	return nil, badger.ErrKeyNotFound
}

//gosym:model (*github.com/dgraph-io/badger/v3.Item).Key
func zzKey(i *badger.Item) []byte { return []byte(items[i].e.k) }

//gosym:model (*github.com/dgraph-io/badger/v3.Item).KeyCopy
func zzKeyCopy(i *badger.Item, dst []byte) []byte { return append(dst[:0], items[i].e.k...) }

//gosym:model (*github.com/dgraph-io/badger/v3.Item).Value
func zzValue(i *badger.Item, fn func([]byte) error) error {
	v := items[i].e.v
	c := make([]byte, len(v))
	copy(c, v)
	return fn(c)
}

//gosym:model (*github.com/dgraph-io/badger/v3.Item).ValueCopy
func zzValueCopy(i *badger.Item, dst []byte) ([]byte, error) {
	return append(dst[:0], items[i].e.v...), nil
}

//gosym:model (*github.com/dgraph-io/badger/v3.Txn).NewIterator
func zzNewIterator(x *badger.Txn, o badger.IteratorOptions) *badger.Iterator {
	t := txs[x]
	it := new(badger.Iterator)
	r := &itr{t: t, pre: o.Prefix}
	for _, e := range t.view() {
		if len(e.k) >= len(o.Prefix) && e.k[:len(o.Prefix)] == string(o.Prefix) {
			r.list = append(r.list, e)
		}
	}
	if o.Reverse {
		for a, b := 0, len(r.list)-1; a < b; a, b = a+1, b-1 {
			r.list[a], r.list[b] = r.list[b], r.list[a]
		}
	}
	r.i = len(r.list)
	itrs[it] = r
	return it
}

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Rewind
func zzRewind(it *badger.Iterator) { itrs[it].i = 0 }

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Valid
func zzValid(it *badger.Iterator) bool { r := itrs[it]; return r.i < len(r.list) }

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).ValidForPrefix
func zzValidForPrefix(it *badger.Iterator, p []byte) bool {
	r := itrs[it]
	return r.i < len(r.list) && len(r.list[r.i].k) >= len(p) && r.list[r.i].k[:len(p)] == string(p)
}

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Next
func zzNext(it *badger.Iterator) { itrs[it].i++ }

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Seek
func zzSeek(it *badger.Iterator, k []byte) {
	r := itrs[it]
	r.i = 0
	for r.i < len(r.list) && r.list[r.i].k < string(k) {
		r.i++
	}
}

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Item
func zzItem(it *badger.Iterator) *badger.Item {
	r := itrs[it]
	i := new(badger.Item)
	items[i] = &itm{r.t, r.list[r.i]}
	return i
}

//gosym:model (*github.com/dgraph-io/badger/v3.Iterator).Close
func zzIterClose(it *badger.Iterator) {}

var dirs = map[string]*dbm{}

// Dir opens the store of a directory, again or for the first time; it is for the engine only.
func Dir(dir string) *badger.DB {
	d := dirs[dir]
	if d == nil {
		d = &dbm{last: map[string]uint64{}}
		dirs[dir] = d
	}
	d.closed = false
	db := new(badger.DB)
	dbs[db] = d
	return db
}
