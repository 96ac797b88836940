package harness

import (
	"bytes"
	"fmt"
	"io"
	"reflect"
	"sort"
	"strings"

	"github.com/waj334/tinygo-mqtt/mqtt/packets"
	"github.com/waj334/tinygo-mqtt/mqtt/storage"
	"github.com/waj334/tinygo-mqtt/mqtt/storage/memory"

	"verifsim/simrt"
	"verifsim/wire"
)

// Store is the durable packet store of the run: the repository's memory storage (real code) behind a recorder that
// injects storage failures, and that survives the crash of a client incarnation. In some runs the packets are kept as the
// bytes they are on the wire instead, as an application with a disk would do it: the client gets a new copy each time.
type Store struct {
	w     *World
	real  *memory.Storage
	disk  map[uint16][]byte
	m     map[uint16]any // what the store holds, by the results it returned
	order []uint16
	ops   []*StoreOp
}

// StoreOp is one call the client made to its storage.
type StoreOp struct {
	Seq  uint64
	Op   *Op
	What string
	ID   uint16
	Pkt  any
	Err  error
}

// storeSnap is the content of the store at an instant.
type storeSnap map[uint16]any

func newStore(w *World) *Store {
	s := &Store{w: w, real: memory.NewStorage(), m: map[uint16]any{}}
	if w.cfg.disk {
		s.disk = map[uint16][]byte{}
	}
	return s
}

func (s *Store) rawStore(id uint16, pkt any) error {
	if s.disk == nil {
		err := s.real.Store(id, pkt)
		if err == nil {
			s.m[id] = pkt
		}
		return err
	}
	if s.disk[id] != nil {
		return storage.ErrDuplicateEntry
	}
	wt, ok := pkt.(io.WriterTo)
	if !ok {
		return fmt.Errorf("%T cannot be written", pkt)
	}
	var b bytes.Buffer
	if _, err := wt.WriteTo(&b); err != nil {
		return err
	}
	p, err := unmarshal(b.Bytes())
	if err != nil {
		return err
	}
	s.disk[id], s.m[id] = b.Bytes(), p
	s.w.Stats.Probe("stored-on-disk")
	return nil
}

func (s *Store) rawGet(id uint16) (any, error) {
	if s.disk == nil {
		return s.real.Get(id)
	}
	b := s.disk[id]
	if b == nil {
		return nil, storage.ErrNoEntry
	}
	return unmarshal(b)
}

func (s *Store) rawDrop(id uint16) error {
	if s.disk == nil {
		return s.real.Drop(id)
	}
	if s.disk[id] == nil {
		return storage.ErrNoEntry
	}
	delete(s.disk, id)
	return nil
}

// unmarshal restores a packet from its bytes.
func unmarshal(b []byte) (any, error) {
	r := bytes.NewReader(b)
	h := packets.FixedHeader{}
	if _, err := h.ReadFrom(r); err != nil {
		return nil, err
	}
	rf, _ := restore(h)
	if rf == nil {
		return nil, fmt.Errorf("packet type %d in the storage", h.GetType())
	}
	if _, err := rf.ReadFrom(r); err != nil {
		return nil, err
	}
	return rf, nil
}

func (s *Store) snap() storeSnap {
	if s == nil {
		return nil
	}
	out := make(storeSnap, len(s.m))
	for k, v := range s.m {
		out[k] = v
	}
	return out
}

func kindOf(v any) string {
	if v == nil {
		return ""
	}
	t := reflect.TypeOf(v)
	for t.Kind() == reflect.Pointer {
		t = t.Elem()
	}
	return strings.ToLower(t.Name())
}

func (s *Store) kind(id uint16) string {
	if s == nil {
		return ""
	}
	return kindOf(s.m[id])
}

func (s *Store) begin(what string, id uint16, pkt any) *StoreOp {
	w := s.w
	so := &StoreOp{What: what, ID: id, Pkt: pkt}
	if t := w.sim.Cur(); t != nil {
		if cl := w.clientOf(t); cl != nil {
			so.Op = cl.cur[t]
		}
	}
	simrt.Yield()
	if w.phase < 2 && w.cfg.storeFault > 0 && !simrt.Dying() && w.X.Chance(w.cfg.storeFault, 16) {
		w.Stats.Fault("storage-error-" + what)
		so.Err = errStore
		if so.Op != nil {
			so.Op.storeF = true
		}
	}
	return so
}

func (s *Store) done(so *StoreOp) {
	so.Seq = s.w.sim.NextSeq()
	s.ops = append(s.ops, so)
	s.w.log("storage %s(%d %s): %s", so.What, so.ID, kindOf(so.Pkt), errText(so.Err))
	s.w.onStore(so)
}

func (s *Store) Store(id uint16, pkt any) error {
	if simrt.Dying() {
		return errStore
	}
	so := s.begin("store", id, pkt)
	if so.Err == nil {
		if so.Err = s.rawStore(id, pkt); so.Err == nil {
			s.order = append(s.order, id)
		}
	}
	s.done(so)
	return so.Err
}

func (s *Store) Get(id uint16) (any, error) {
	if simrt.Dying() {
		return nil, errStore
	}
	so := s.begin("get", id, nil)
	var v any
	if so.Err == nil {
		v, so.Err = s.rawGet(id)
	}
	so.Pkt = v
	s.done(so)
	return v, so.Err
}

func (s *Store) Drop(id uint16) error {
	if simrt.Dying() {
		return errStore
	}
	so := s.begin("drop", id, nil)
	so.Pkt = s.m[id]
	if so.Err == nil {
		if so.Err = s.rawDrop(id); so.Err == nil {
			delete(s.m, id)
			for i, k := range s.order {
				if k == id {
					s.order = append(s.order[:i:i], s.order[i+1:]...)
					break
				}
			}
		}
	}
	s.done(so)
	return so.Err
}

// reload rebuilds the store from what had been made durable when the process crashed.
func (s *Store) reload() {
	if s.disk != nil {
		return
	}
	s.real = memory.NewStorage()
	for _, id := range s.order {
		if err := s.real.Store(id, s.m[id]); err != nil {
			panic(fmt.Sprintf("reload: %v", err))
		}
	}
}

// storedPublish decodes a stored outbound PUBLISH.
func storedPublish(v any) *wire.Packet {
	p, ok := v.(*packets.Publish)
	if !ok {
		return nil
	}
	return publishOf(p)
}

func sortedIDs(m map[uint16]any) (ids []uint16) {
	for id := range m {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	return ids
}
