// Package leveldb replaces github.com/syndtr/goleveldb/leveldb with an in-memory store that has scheduling
// points, fault injection, a journal of atomic writes for crash exploration, and an optional real backend.
package leveldb

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"sort"

	real "github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/iterator"
	"github.com/syndtr/goleveldb/leveldb/opt"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"github.com/syndtr/goleveldb/leveldb/util"

	"github.com/alexeykiselev/waves-fork-detector/zzv/vs"
)

var (
	ErrNotFound         = real.ErrNotFound
	ErrReadOnly         = real.ErrReadOnly
	ErrSnapshotReleased = real.ErrSnapshotReleased
	ErrIterReleased     = real.ErrIterReleased
	ErrClosed           = real.ErrClosed
)

type (
	Batch       = real.Batch
	BatchReplay = real.BatchReplay
	DBStats     = real.DBStats
	Sizes       = real.Sizes
)

// Reader is the read interface of databases and snapshots.
type Reader interface {
	Get(key []byte, ro *opt.ReadOptions) (value []byte, err error)
	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
}

type kv struct{ k, v []byte }

// version is an immutable state of a store: a search tree that shares the unchanged parts with the other versions.
// Random but reproducible priorities keep it balanced.
type version = *node

type node struct {
	kv
	pri  uint32
	l, r *node
}

func priority(key []byte) uint32 {
	h := uint32(2166136261)
	for _, c := range key {
		h = (h ^ uint32(c)) * 16777619
	}
	h ^= h >> 15
	h *= 0x2c1b3c6d
	h ^= h >> 12
	h *= 0x297a2d39
	return h ^ h>>15
}

func find(n *node, key []byte) *node {
	for n != nil {
		switch c := bytes.Compare(key, n.k); {
		case c == 0:
			return n
		case c < 0:
			n = n.l
		default:
			n = n.r
		}
	}
	return nil
}

func insert(n *node, e kv, pri uint32) *node {
	if n == nil {
		return &node{kv: e, pri: pri}
	}
	m := *n
	switch c := bytes.Compare(e.k, n.k); {
	case c == 0:
		m.kv = e
	case c < 0:
		t := insert(n.l, e, pri)
		if t.pri > m.pri {
			m.l, t.r = t.r, &m
			return t
		}
		m.l = t
	default:
		t := insert(n.r, e, pri)
		if t.pri > m.pri {
			m.r, t.l = t.l, &m
			return t
		}
		m.r = t
	}
	return &m
}

func remove(n *node, key []byte) *node {
	if n == nil {
		return nil
	}
	m := *n
	switch c := bytes.Compare(key, n.k); {
	case c == 0:
		return merge(n.l, n.r)
	case c < 0:
		m.l = remove(n.l, key)
	default:
		m.r = remove(n.r, key)
	}
	return &m
}

func merge(a, b *node) *node {
	switch {
	case a == nil:
		return b
	case b == nil:
		return a
	case a.pri >= b.pri:
		m := *a
		m.r = merge(a.r, b)
		return &m
	default:
		m := *b
		m.l = merge(a, b.l)
		return &m
	}
}

// visit calls the function for all entries with lo <= key < hi in the order of keys, nil is no limit.
func visit(n *node, lo, hi []byte, f func(e kv)) {
	if n == nil {
		return
	}
	above := lo == nil || bytes.Compare(n.k, lo) >= 0
	below := hi == nil || bytes.Compare(n.k, hi) < 0
	if above {
		visit(n.l, lo, hi, f)
		if below {
			f(n.kv)
		}
	}
	if below {
		visit(n.r, lo, hi, f)
	}
}

// Store is the durable content of one database path.
type Store struct {
	Path     string
	versions []version // after each write; versions[0] is empty
	open     bool
	gen      int
}

func stores() map[string]*Store {
	m, ok := vs.W.Data["stores"].(map[string]*Store)
	if !ok {
		m = map[string]*Store{}
		vs.W.Data["stores"] = m
	}
	return m
}

// Lookup finds the store of a path.
func Lookup(path string) *Store { return stores()[path] }

// Writes returns the number of atomic writes so far.
func (s *Store) Writes() int { return len(s.versions) - 1 }

// Cut drops all writes after the first n and closes the database, as a crash would.
func (s *Store) Cut(n int) {
	s.versions = s.versions[:n+1]
	s.open = false
	s.gen++
}

// Crash releases the database as the death of the process would, losing nothing.
func (s *Store) Crash() { s.Cut(s.Writes()) }

// IsOpen reports whether some handle is open.
func (s *Store) IsOpen() bool { return s.open }

// Copy duplicates a store under another path.
func Copy(from, to string) {
	s := stores()[from]
	stores()[to] = &Store{Path: to, versions: append([]version{}, s.versions...)}
}

// Dump returns the content of a store.
func (s *Store) Dump() map[string]string {
	m := map[string]string{}
	s.Each(func(k, v []byte) { m[string(k)] = string(v) })
	return m
}

// Each visits the content of a store in key order.
func (s *Store) Each(f func(k, v []byte)) {
	visit(s.versions[len(s.versions)-1], nil, nil, func(e kv) { f(e.k, e.v) })
}

// UseReal switches the current world to the real database implementation.
func UseReal(on bool) { vs.W.Data["realdb"] = on }

func isReal() bool { b, _ := vs.W.Data["realdb"].(bool); return b }

type DB struct {
	s   *Store
	gen int
	r   *real.DB
}

func fault(op string) error {
	if vs.W != nil && vs.W.Fault != nil && vs.W.Fail == nil {
		return vs.W.Fault(op)
	}
	return nil
}

func OpenFile(path string, o *opt.Options) (*DB, error) {
	vs.Pt()
	if err := fault("open"); err != nil {
		return nil, err
	}
	if isReal() {
		r, err := real.OpenFile(path, o)
		if err != nil {
			return nil, err
		}
		return &DB{r: r}, nil
	}
	m := stores()
	s := m[path]
	if s == nil {
		s = &Store{Path: path, versions: []version{nil}}
		m[path] = s
	}
	if s.open {
		return nil, fmt.Errorf("resource temporarily unavailable: %w", os.ErrExist)
	}
	s.open = true
	s.gen++
	return &DB{s: s, gen: s.gen}, nil
}

func RecoverFile(path string, o *opt.Options) (*DB, error) { return OpenFile(path, o) }

func Open(stor storage.Storage, o *opt.Options) (*DB, error) {
	r, err := real.Open(stor, o)
	if err != nil {
		return nil, err
	}
	return &DB{r: r}, nil
}

func (db *DB) ok() error {
	if !db.s.open || db.gen != db.s.gen {
		n, _ := vs.W.Data["late"].(int)
		vs.W.Data["late"] = n + 1
		return ErrClosed
	}
	return nil
}

// held counts the snapshots and iterators that are not released.
func held(n int) {
	if vs.W != nil {
		k, _ := vs.W.Data["held"].(int)
		vs.W.Data["held"] = k + n
	}
}

// Held is the number of snapshots and iterators that are not released.
func Held() int {
	n, _ := vs.W.Data["held"].(int)
	return n
}

// Late counts the calls on closed databases.
func Late() int {
	n, _ := vs.W.Data["late"].(int)
	return n
}

// FaultyClose lets closing fail too.
func FaultyClose() { vs.W.Data["faultyclose"] = true }

func (db *DB) cur() version { return db.s.versions[len(db.s.versions)-1] }

func (db *DB) Close() error {
	vs.Pt()
	if db.r != nil {
		return db.r.Close()
	}
	if err := db.ok(); err != nil {
		return err
	}
	db.s.open = false
	db.s.gen++
	if vs.W.Data["faultyclose"] != nil {
		return fault("close")
	}
	return nil
}

type applier struct{ v version }

func (a *applier) Put(key, value []byte) {
	a.v = insert(a.v, kv{append([]byte{}, key...), append([]byte{}, value...)}, priority(key))
}

func (a *applier) Delete(key []byte) {
	if find(a.v, key) != nil {
		a.v = remove(a.v, key)
	}
}

var errApplied = errors.New("applied")

// ErrAfterWrite wraps a fault that is reported although the write took place.
func ErrAfterWrite(err error) error { return fmt.Errorf("%w: %w", errApplied, err) }

func (db *DB) Write(batch *Batch, wo *opt.WriteOptions) error {
	vs.Pt()
	err := fault("write")
	if err != nil && !errors.Is(err, errApplied) {
		return err
	}
	if db.r != nil {
		if e := db.r.Write(batch, wo); e != nil {
			return e
		}
		return err
	}
	if e := db.ok(); e != nil {
		return e
	}
	a := &applier{v: db.cur()}
	if e := batch.Replay(a); e != nil {
		return e
	}
	if batch.Len() > 0 {
		db.s.versions = append(db.s.versions, a.v)
	}
	return err
}

func (db *DB) Put(key, value []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Put(key, value)
	return db.Write(b, wo)
}

func (db *DB) Delete(key []byte, wo *opt.WriteOptions) error {
	b := new(Batch)
	b.Delete(key)
	return db.Write(b, wo)
}

func get(v version, key []byte) ([]byte, error) {
	if n := find(v, key); n != nil {
		return append([]byte{}, n.v...), nil
	}
	return nil, ErrNotFound
}

func (db *DB) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	vs.Pt()
	if err := fault("get"); err != nil {
		return nil, err
	}
	if db.r != nil {
		return db.r.Get(key, ro)
	}
	if err := db.ok(); err != nil {
		return nil, err
	}
	return get(db.cur(), key)
}

func (db *DB) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	vs.Pt()
	if err := fault("has"); err != nil {
		return false, err
	}
	if db.r != nil {
		return db.r.Has(key, ro)
	}
	if err := db.ok(); err != nil {
		return false, err
	}
	return find(db.cur(), key) != nil, nil
}

func (db *DB) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	vs.Pt()
	if err := fault("iter"); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	if db.r != nil {
		return db.r.NewIterator(slice, ro)
	}
	if err := db.ok(); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	return newIter(db.cur(), slice)
}

func (db *DB) CompactRange(r util.Range) error {
	if db.r != nil {
		return db.r.CompactRange(r)
	}
	return db.ok()
}

func (db *DB) GetProperty(name string) (string, error) {
	if db.r != nil {
		return db.r.GetProperty(name)
	}
	return "", ErrNotFound
}

func (db *DB) SetReadOnly() error { return nil }

// Snapshot is an immutable view.
type Snapshot struct {
	db  *DB
	v   version
	rel bool
	r   *real.Snapshot
}

func (db *DB) GetSnapshot() (*Snapshot, error) {
	vs.Pt()
	if err := fault("snapshot"); err != nil {
		return nil, err
	}
	if db.r != nil {
		r, err := db.r.GetSnapshot()
		if err != nil {
			return nil, err
		}
		return &Snapshot{db: db, r: r}, nil
	}
	if err := db.ok(); err != nil {
		return nil, err
	}
	held(1)
	return &Snapshot{db: db, v: db.cur()}, nil
}

func (sn *Snapshot) String() string { return "snapshot" }

func (sn *Snapshot) state() error {
	if sn.rel {
		return ErrSnapshotReleased
	}
	return sn.db.ok()
}

func (sn *Snapshot) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	vs.Pt()
	if err := fault("get"); err != nil {
		return nil, err
	}
	if sn.r != nil {
		return sn.r.Get(key, ro)
	}
	if err := sn.state(); err != nil {
		return nil, err
	}
	return get(sn.v, key)
}

func (sn *Snapshot) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	vs.Pt()
	if err := fault("has"); err != nil {
		return false, err
	}
	if sn.r != nil {
		return sn.r.Has(key, ro)
	}
	if err := sn.state(); err != nil {
		return false, err
	}
	return find(sn.v, key) != nil, nil
}

func (sn *Snapshot) NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	vs.Pt()
	if err := fault("iter"); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	if sn.r != nil {
		return sn.r.NewIterator(slice, ro)
	}
	if err := sn.state(); err != nil {
		return iterator.NewEmptyIterator(err)
	}
	return newIter(sn.v, slice)
}

func (sn *Snapshot) Release() {
	if sn.r != nil {
		sn.r.Release()
	} else if !sn.rel {
		held(-1)
	}
	sn.rel = true
}

// iter iterates over a version. As with the real database, the slices returned by Key and Value are only
// valid until the iterator moves: they are overwritten then.
type iter struct {
	util.BasicReleaser
	v   []kv
	pos int
	k   []byte
	val []byte
	err error
}

func newIter(v version, r *util.Range) iterator.Iterator {
	var lo, hi []byte
	if r != nil {
		lo, hi = r.Start, r.Limit
	}
	it := &iter{pos: -1}
	visit(v, lo, hi, func(e kv) { it.v = append(it.v, e) })
	held(1)
	return it
}

func (i *iter) Release() {
	if !i.Released() {
		held(-1)
	}
	i.BasicReleaser.Release()
}

func (i *iter) move(p int) bool {
	for j := range i.k {
		i.k[j] = 0xEE
	}
	for j := range i.val {
		i.val[j] = 0xEE
	}
	i.k, i.val = nil, nil
	if i.err != nil {
		i.pos = len(i.v)
		return false
	}
	if i.Released() {
		i.err = ErrIterReleased
		return false
	}
	if p < -1 {
		p = -1
	}
	if p > len(i.v) {
		p = len(i.v)
	}
	if p >= 0 && p < len(i.v) {
		if err := fault("next"); err != nil {
			i.err = err
			i.pos = len(i.v)
			return false
		}
	}
	i.pos = p
	if p >= 0 && p < len(i.v) {
		i.k = append([]byte{}, i.v[p].k...)
		i.val = append([]byte{}, i.v[p].v...)
		return true
	}
	return false
}

func (i *iter) First() bool { return i.move(0) }
func (i *iter) Last() bool  { return i.move(len(i.v) - 1) }
func (i *iter) Seek(key []byte) bool {
	return i.move(sort.Search(len(i.v), func(p int) bool { return bytes.Compare(i.v[p].k, key) >= 0 }))
}
func (i *iter) Next() bool    { return i.move(i.pos + 1) }
func (i *iter) Prev() bool    { return i.move(i.pos - 1) }
func (i *iter) Valid() bool   { return i.err == nil && i.pos >= 0 && i.pos < len(i.v) && !i.Released() }
func (i *iter) Error() error  { return i.err }
func (i *iter) Key() []byte   { return i.k }
func (i *iter) Value() []byte { return i.val }

// Forget drops all versions but the last one, to save memory.
func (s *Store) Forget() { s.versions = append([]version{}, s.versions[len(s.versions)-1]) }
