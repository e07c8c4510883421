// Package vbadger stands in for the Badger database under the simulator: a
// versioned map with Badger's transaction semantics (snapshot reads, own writes
// visible, conflict detection on the keys an update read, values referenced
// until commit, writes refused while prefixes are dropped), where every call is
// a scheduling point and may fail.
package vbadger

import (
	"bytes"
	"fmt"
	"path/filepath"
	"sort"
	"syscall"

	"github.com/PatchLens/go-update-lens/zzverif/vos"
	"github.com/PatchLens/go-update-lens/zzverif/vsim"
	"github.com/dgraph-io/badger/v4"
	"github.com/dgraph-io/ristretto/v2"
)

type version struct {
	ts  uint64
	val []byte
	del bool
}

type DB struct {
	opt     badger.Options
	ts      uint64
	data    map[string][]version
	blocked bool
	closed  bool
	lock    *vos.File
	clk     vsim.Clock
	open    int // transactions under way
}

// SimFaults configures failures of the database; nil: none.
type SimFaults struct {
	Get, Set, Commit, Iter, Open int  // per mille
	On                           bool // switched by the scenario
	Max                          int
	Done                         int
}

func SimSetFaults(f *SimFaults) { vsim.W.Vals["badgerfaults"] = f }

func fault(kind string, rate func(*SimFaults) int) error {
	w := vsim.W
	if w == nil {
		return nil
	}
	f, _ := w.Vals["badgerfaults"].(*SimFaults)
	if f == nil || !f.On || (f.Max > 0 && f.Done >= f.Max) {
		return nil
	}
	if vsim.Chance("db", "db "+kind+" fails", rate(f)) {
		f.Done++
		vsim.CountFault("db_" + kind + "_error")
		return fmt.Errorf("db %s: %w", kind, syscall.EIO)
	}
	return nil
}

// SimDump returns the committed content.
func (db *DB) SimDump() map[string]string {
	out := map[string]string{}
	for k, vs := range db.data {
		if v := vs[len(vs)-1]; !v.del {
			out[k] = string(v.val)
		}
	}
	return out
}

func Open(opt badger.Options) (*DB, error) {
	vsim.Op("db.open")
	if err := fault("open", func(f *SimFaults) int { return f.Open }); err != nil {
		return nil, err
	}
	db := &DB{opt: opt, data: map[string][]version{}}
	if !opt.InMemory {
		f, err := vos.OpenFile(filepath.Join(opt.Dir, "LOCK"), syscall.O_CREAT|syscall.O_RDWR|syscall.O_EXCL, 0600)
		if err != nil {
			return nil, fmt.Errorf("Cannot acquire directory lock on %q: %w", opt.Dir, err)
		}
		db.lock = f
	}
	return db, nil
}

func (db *DB) Opts() badger.Options                  { return db.opt }
func (db *DB) IsClosed() bool                        { return db.closed }
func (db *DB) Sync() error                           { vsim.Op("db.sync"); return nil }
func (db *DB) BlockCacheMetrics() *ristretto.Metrics { return nil }
func (db *DB) IndexCacheMetrics() *ristretto.Metrics { return nil }
func (db *DB) RunValueLogGC(float64) error           { return badger.ErrNoRewrite }
func (db *DB) Flatten(int) error                     { return nil }
func (db *DB) Size() (int64, int64)                  { return 0, 0 }
func (db *DB) MaxVersion() uint64                    { return db.ts }
func (db *DB) MaxBatchCount() int64                  { return 1 << 20 }
func (db *DB) MaxBatchSize() int64                   { return 1 << 30 }

func (db *DB) Close() error {
	vsim.Op("db.close")
	if db.closed {
		return nil
	}
	db.closed = true
	if db.lock != nil {
		_ = db.lock.Close()
		_ = vos.Remove(filepath.Join(db.opt.Dir, "LOCK"))
	}
	return nil
}

func (db *DB) DropAll() error { return db.DropPrefix() }

func (db *DB) DropPrefix(prefixes ...[]byte) error {
	vsim.Op("db.drop")
	if len(prefixes) == 0 {
		prefixes = [][]byte{{}}
	}
	if db.closed {
		return badger.ErrDBClosed
	}
	if db.blocked {
		return badger.ErrBlockedWrites
	}
	db.blocked = true
	vsim.Op("db.drop2") // commits arriving now are refused
	if err := fault("commit", func(f *SimFaults) int { return f.Commit }); err != nil {
		db.blocked = false
		return err
	}
	for k := range db.data {
		for _, p := range prefixes {
			if bytes.HasPrefix([]byte(k), p) {
				delete(db.data, k)
				break
			}
		}
	}
	db.ts++
	vsim.Op("db.drop3")
	db.blocked = false
	vsim.Release(&db.clk)
	return nil
}

type Txn struct {
	db        *DB
	update    bool
	ts        uint64
	reads     map[string]bool
	pending   map[string]*badger.Entry
	deleted   map[string]bool
	discarded bool
	size      int64
}

func (db *DB) NewTransaction(update bool) *Txn {
	vsim.Op("db.begin")
	vsim.Acquire(&db.clk)
	return &Txn{db: db, update: update, ts: db.ts, reads: map[string]bool{}, pending: map[string]*badger.Entry{}, deleted: map[string]bool{}}
}

func (db *DB) View(fn func(txn *Txn) error) error {
	if db.closed {
		return badger.ErrDBClosed
	}
	t := db.NewTransaction(false)
	defer t.Discard()
	return fn(t)
}

func (db *DB) Update(fn func(txn *Txn) error) error {
	if db.closed {
		return badger.ErrDBClosed
	}
	t := db.NewTransaction(true)
	defer t.Discard()
	if err := fn(t); err != nil {
		return err
	}
	return t.Commit()
}

func (t *Txn) Discard()       { t.discarded = true }
func (t *Txn) ReadTs() uint64 { return t.ts }

func (t *Txn) modify(e *badger.Entry, del bool) error {
	vsim.Op("db.set")
	switch {
	case !t.update:
		return badger.ErrReadOnlyTxn
	case t.discarded:
		return badger.ErrDiscardedTxn
	case len(e.Key) == 0:
		return badger.ErrEmptyKey
	case bytes.HasPrefix(e.Key, []byte("!badger!")):
		return badger.ErrInvalidKey
	case len(e.Key) > 65000:
		return fmt.Errorf("Key with size %d exceeded 65000 limit", len(e.Key))
	case int64(len(e.Value)) > t.db.opt.ValueLogFileSize:
		return fmt.Errorf("Value with size %d exceeded %d limit", len(e.Value), t.db.opt.ValueLogFileSize)
	}
	if err := fault("set", func(f *SimFaults) int { return f.Set }); err != nil {
		return err
	}
	t.pending[string(e.Key)] = e
	t.deleted[string(e.Key)] = del
	return nil
}

func (t *Txn) Set(k, v []byte) error          { return t.modify(badger.NewEntry(k, v), false) }
func (t *Txn) SetEntry(e *badger.Entry) error { return t.modify(e, false) }
func (t *Txn) Delete(k []byte) error          { return t.modify(&badger.Entry{Key: k}, true) }

func (db *DB) at(k string, ts uint64) (version, bool) {
	vs := db.data[k]
	for i := len(vs) - 1; i >= 0; i-- {
		if vs[i].ts <= ts {
			return vs[i], !vs[i].del
		}
	}
	return version{}, false
}

func (t *Txn) Get(key []byte) (*Item, error) {
	vsim.Op("db.get")
	if len(key) == 0 {
		return nil, badger.ErrEmptyKey
	}
	if t.discarded {
		return nil, badger.ErrDiscardedTxn
	}
	if t.db.closed {
		return nil, badger.ErrDBClosed
	}
	if err := fault("get", func(f *SimFaults) int { return f.Get }); err != nil {
		return nil, err
	}
	k := string(key)
	if t.update {
		if e, ok := t.pending[k]; ok {
			if t.deleted[k] {
				return nil, badger.ErrKeyNotFound
			}
			return &Item{key: []byte(k), val: e.Value, ts: t.ts, txn: t}, nil
		}
		t.reads[k] = true
	}
	v, ok := t.db.at(k, t.ts)
	if !ok {
		return nil, badger.ErrKeyNotFound
	}
	return &Item{key: []byte(k), val: v.val, ts: v.ts, txn: t}, nil
}

func (t *Txn) CommitWith(cb func(error)) { cb(t.Commit()) }

func (t *Txn) Commit() error {
	vsim.Op("db.commit")
	defer t.Discard()
	if t.discarded {
		return badger.ErrDiscardedTxn
	}
	if len(t.pending) == 0 {
		return nil
	}
	db := t.db
	if db.closed {
		return badger.ErrDBClosed
	}
	if db.blocked {
		vsim.CountFault("db_blocked_writes")
		return badger.ErrBlockedWrites
	}
	if db.opt.DetectConflicts {
		for k := range t.reads {
			if vs := db.data[k]; len(vs) > 0 && vs[len(vs)-1].ts > t.ts {
				vsim.CountFault("db_conflict")
				return badger.ErrConflict
			}
		}
	}
	if err := fault("commit", func(f *SimFaults) int { return f.Commit }); err != nil {
		return err
	}
	db.ts++
	for k, e := range t.pending {
		db.data[k] = append(db.data[k], version{ts: db.ts, val: append([]byte{}, e.Value...), del: t.deleted[k]})
	}
	vsim.Release(&db.clk)
	vsim.Op("db.committed")
	return nil
}

// ---- items ----

type Item struct {
	key, val []byte
	ts       uint64
	txn      *Txn
}

func (i *Item) Key() []byte                  { return i.key }
func (i *Item) KeyCopy(d []byte) []byte      { return append(d[:0], i.key...) }
func (i *Item) Version() uint64              { return i.ts }
func (i *Item) KeySize() int64               { return int64(len(i.key)) }
func (i *Item) ValueSize() int64             { return int64(len(i.val)) }
func (i *Item) EstimatedSize() int64         { return int64(len(i.val) + len(i.key)) }
func (i *Item) UserMeta() byte               { return 0 }
func (i *Item) ExpiresAt() uint64            { return 0 }
func (i *Item) IsDeletedOrExpired() bool     { return false }
func (i *Item) String() string               { return fmt.Sprintf("key=%q, version=%d", i.key, i.ts) }
func (i *Item) DiscardEarlierVersions() bool { return false }

// Value hands out bytes that are only valid during the call.
func (i *Item) Value(fn func(val []byte) error) error {
	vsim.Op("db.value")
	if err := fault("get", func(f *SimFaults) int { return f.Get }); err != nil {
		return err
	}
	if fn == nil {
		return nil
	}
	b := append([]byte(nil), i.val...)
	err := fn(b)
	for j := range b { // whoever kept the slice reads this
		b[j] = 0xDB
	}
	return err
}

func (i *Item) ValueCopy(d []byte) ([]byte, error) {
	vsim.Op("db.value")
	if err := fault("get", func(f *SimFaults) int { return f.Get }); err != nil {
		return nil, err
	}
	return append(d[:0], i.val...), nil
}

// ---- iteration ----

type Iterator struct {
	txn   *Txn
	opt   badger.IteratorOptions
	items []*Item
	pos   int
	all   []*Item
}

func (t *Txn) NewKeyIterator(key []byte, opt badger.IteratorOptions) *Iterator {
	opt.Prefix = key
	return t.NewIterator(opt)
}

func (t *Txn) NewIterator(opt badger.IteratorOptions) *Iterator {
	vsim.Op("db.iter")
	it := &Iterator{txn: t, opt: opt}
	seen := map[string]bool{}
	add := func(k string, v []byte, ts uint64) {
		if bytes.HasPrefix([]byte(k), opt.Prefix) {
			it.all = append(it.all, &Item{key: []byte(k), val: v, ts: ts, txn: t})
		}
	}
	for k, e := range t.pending {
		seen[k] = true
		if !t.deleted[k] {
			add(k, e.Value, t.ts)
		}
	}
	for k := range t.db.data {
		if seen[k] {
			continue
		}
		if v, ok := t.db.at(k, t.ts); ok {
			if t.update {
				t.reads[k] = true
			}
			add(k, v.val, v.ts)
		}
	}
	sort.Slice(it.all, func(i, j int) bool {
		c := bytes.Compare(it.all[i].key, it.all[j].key)
		if opt.Reverse {
			return c > 0
		}
		return c < 0
	})
	it.pos = len(it.all)
	return it
}

func (it *Iterator) Close() {}
func (it *Iterator) Rewind() {
	vsim.Op("db.next")
	it.pos = 0
}
func (it *Iterator) Seek(key []byte) {
	vsim.Op("db.next")
	if len(key) == 0 {
		key = it.opt.Prefix
	}
	if len(key) == 0 {
		it.pos = 0
		return
	}
	it.pos = sort.Search(len(it.all), func(i int) bool {
		c := bytes.Compare(it.all[i].key, key)
		if it.opt.Reverse {
			return c <= 0
		}
		return c >= 0
	})
}
func (it *Iterator) Next() {
	vsim.Op("db.next")
	it.pos++
}
func (it *Iterator) Item() *Item { return it.all[it.pos] }
func (it *Iterator) Valid() bool { return it.pos < len(it.all) }
func (it *Iterator) ValidForPrefix(p []byte) bool {
	return it.Valid() && bytes.HasPrefix(it.all[it.pos].key, p)
}

// ---- batches ----

type WriteBatch struct {
	db  *DB
	txn *Txn
	err error
}

func (db *DB) NewWriteBatch() *WriteBatch {
	t := db.NewTransaction(true)
	return &WriteBatch{db: db, txn: t}
}
func (b *WriteBatch) Set(k, v []byte) error          { return b.txn.Set(append([]byte{}, k...), v) }
func (b *WriteBatch) SetEntry(e *badger.Entry) error { return b.txn.SetEntry(e) }
func (b *WriteBatch) Delete(k []byte) error          { return b.txn.Delete(append([]byte{}, k...)) }
func (b *WriteBatch) Flush() error                   { return b.txn.Commit() }
func (b *WriteBatch) Cancel()                        { b.txn.Discard() }
func (b *WriteBatch) Error() error                   { return b.err }
func (b *WriteBatch) SetMaxPendingTxns(int)          {}
