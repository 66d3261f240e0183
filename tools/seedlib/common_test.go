package sortedmap

import (
	"encoding/binary"
	"fmt"
	"sync"
	"testing"
	"time"
)

var _ = time.Now

// vdStore is a client of a B+Tree with int64 keys and values and an in-memory object store.
type vdStore struct {
	sync.Mutex
	next      uint64
	objects   map[uint64][]byte
	live      map[uint64]bool
	discards  map[uint64]int
	puts      int
	gets      int
	failGet   func(n int) bool
	failPut   func(n int) bool
	failDisc  func(n int) bool
	discCalls int
	packs     int
	failPack  func(n int) bool
}

func vdNew() *vdStore {
	return &vdStore{next: 1, objects: map[uint64][]byte{}, live: map[uint64]bool{}, discards: map[uint64]int{}}
}

func (s *vdStore) DumpKey(key Key) (string, error)       { return fmt.Sprint(key), nil }
func (s *vdStore) DumpValue(value Value) (string, error) { return fmt.Sprint(value), nil }
func (s *vdStore) GetNode(n uint64, o uint64, l uint64) ([]byte, error) {
	s.Lock()
	defer s.Unlock()
	s.gets++
	if s.failGet != nil && s.failGet(s.gets) {
		return nil, fmt.Errorf("GetNode fails")
	}
	b, ok := s.objects[n]
	if !ok || o != 7 || l != uint64(len(b)) {
		return nil, fmt.Errorf("no such node (%v,%v,%v)", n, o, l)
	}
	if s.discards[n] != 0 {
		return nil, fmt.Errorf("node (%v,%v,%v) was discarded", n, o, l)
	}
	return append([]byte{}, b...), nil
}
func (s *vdStore) PutNode(b []byte) (uint64, uint64, error) {
	s.Lock()
	defer s.Unlock()
	s.puts++
	if s.failPut != nil && s.failPut(s.puts) {
		return 0, 0, fmt.Errorf("PutNode fails")
	}
	n := s.next
	s.next++
	s.objects[n] = append([]byte{}, b...)
	s.live[n] = true
	return n, 7, nil
}
func (s *vdStore) DiscardNode(n uint64, o uint64, l uint64) error {
	s.Lock()
	defer s.Unlock()
	s.discCalls++
	if s.failDisc != nil && s.failDisc(s.discCalls) {
		return fmt.Errorf("DiscardNode fails")
	}
	s.discards[n]++
	delete(s.live, n)
	return nil
}
func (s *vdStore) pack(v interface{}) ([]byte, error) {
	s.Lock()
	defer s.Unlock()
	s.packs++
	if s.failPack != nil && s.failPack(s.packs) {
		return nil, fmt.Errorf("Pack fails")
	}
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, uint64(v.(int)))
	return b, nil
}
func (s *vdStore) PackKey(k Key) ([]byte, error)     { return s.pack(k) }
func (s *vdStore) PackValue(v Value) ([]byte, error) { return s.pack(v) }
func (s *vdStore) unpack(b []byte) (int, uint64, error) {
	if len(b) < 8 {
		return 0, 0, fmt.Errorf("short")
	}
	return int(binary.BigEndian.Uint64(b)), 8, nil
}
func (s *vdStore) UnpackKey(b []byte) (Key, uint64, error)     { return s.unpack(b) }
func (s *vdStore) UnpackValue(b []byte) (Value, uint64, error) { return s.unpack(b) }

func vdMust(t *testing.T, err error) {
	t.Helper()
	if nil != err {
		t.Fatal(err)
	}
}

// vdContents checks that tree holds exactly the keys of want (ascending) with value 10*key.
func vdContents(t *testing.T, tree SortedMap, want []int) {
	t.Helper()
	n, err := tree.Len()
	vdMust(t, err)
	if n != len(want) {
		t.Fatalf("Len() = %v, want %v", n, len(want))
	}
	for i, k := range want {
		key, value, ok, err := tree.GetByIndex(i)
		vdMust(t, err)
		if !ok || key != k || value != 10*k {
			t.Fatalf("GetByIndex(%v) = %v,%v,%v, want %v,%v", i, key, value, ok, k, 10*k)
		}
		value, ok, err = tree.GetByKey(k)
		vdMust(t, err)
		if !ok || value != 10*k {
			t.Fatalf("GetByKey(%v) = %v,%v", k, value, ok)
		}
		index, found, err := tree.BisectLeft(k)
		vdMust(t, err)
		if !found || index != i {
			t.Fatalf("BisectLeft(%v) = %v,%v, want %v", k, index, found, i)
		}
	}
}

func vdFinishes(t *testing.T, what string, f func()) {
	t.Helper()
	done := make(chan struct{})
	go func() { f(); close(done) }()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		t.Fatalf("%s did not return", what)
	}
}

var _ = vdContents
var _ = vdFinishes
