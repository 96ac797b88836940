package simrt

// Choice streams. Every nondeterministic decision of a run is drawn from one of a few named streams. A stream is
// either generating (outcomes come from a PRNG seeded from the run seed) or replaying (outcomes come from a recorded
// list; when the list is exhausted the outcome is 0). Outcomes are always recorded, so that a run is a pure function
// of its recorded outcomes and the code. By convention outcome 0 is the most benign one, which is what makes generic
// minimisation (drop / zero / lower recorded outcomes) meaningful.

type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9E3779B97F4A7C15
	z := p.s
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

// Mix derives a sub-seed.
func Mix(a, b uint64) uint64 {
	p := prng{a ^ (b * 0xD6E8FEB86659FD93)}
	p.next()
	return p.next() ^ b
}

type Stream struct {
	Name   string
	rng    prng
	replay []uint32
	isRep  bool
	pos    int
	Rec    []uint32
}

func NewStream(name string, seed uint64) *Stream {
	h := uint64(1469598103934665603)
	for i := 0; i < len(name); i++ {
		h = (h ^ uint64(name[i])) * 1099511628211
	}
	return &Stream{Name: name, rng: prng{Mix(seed, h)}}
}

func NewReplay(name string, rec []uint32) *Stream {
	return &Stream{Name: name, replay: rec, isRep: true}
}

func (s *Stream) fromReplay(n uint32) uint32 {
	var v uint32
	if s.pos < len(s.replay) {
		v = s.replay[s.pos]
	}
	s.pos++
	if n > 0 && v >= n {
		v = n - 1
	}
	return v
}

// Intn returns a value in [0,n).
func (s *Stream) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	var v uint32
	if s.isRep {
		v = s.fromReplay(uint32(n))
	} else {
		v = uint32(s.rng.next() % uint64(n))
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}

// Range returns a value in [lo,hi]; lo is the benign one.
func (s *Stream) Range(lo, hi int) int { return lo + s.Intn(hi-lo+1) }

// Chance returns true with probability num/den; false is the benign outcome.
func (s *Stream) Chance(num, den int) bool {
	if num <= 0 {
		return false
	}
	var v uint32
	if s.isRep {
		v = s.fromReplay(2)
	} else if s.rng.next()%uint64(den) < uint64(num) {
		v = 1
	}
	s.Rec = append(s.Rec, v)
	return v == 1
}

// Pick returns an index with probability proportional to its weight.
func (s *Stream) Pick(weights ...int) int {
	total := 0
	for _, w := range weights {
		total += w
	}
	var v uint32
	if s.isRep {
		v = s.fromReplay(uint32(len(weights)))
	} else if total > 0 {
		x := int(s.rng.next() % uint64(total))
		for i, w := range weights {
			if x < w {
				v = uint32(i)
				break
			}
			x -= w
		}
	}
	s.Rec = append(s.Rec, v)
	return int(v)
}
