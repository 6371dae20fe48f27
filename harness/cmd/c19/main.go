// C19: which piece is asked from which peer.
package main

import (
	"fmt"
	"net"
	"strings"

	"gotor/bf"
	"gotor/peer"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C19",
		Rule: "Histories of operations on the tracker of pieces: peers announce pieces one by one, twice, or as a bitfield (again, with more); they go away, come back; pieces are asked for; pieces are completed. " +
			"From 1 to 300 peers and 1 to 5000 pieces, in sets of all shapes. Side by side with sets: a piece that is handed out is needed, has that peer, is not handed out to anyone, and no other such piece is with fewer peers (63 or more count as the same); " +
			"nothing is handed out only if there is none. Distinct by the history.",
		Assumptions: []string{"piece numbers are within the torrent, as at all uses"},
		Scenarios: []mon.Scenario{
			{Name: "few", Quick: 6000, Thorough: 100000, Shards: 4, Nobody: true, Run: func(t *mon.T, i int) { run(t, 1+t.Rng.IntN(6), 1+t.Rng.IntN(8), 60) }},
			{Name: "many", Quick: 1500, Thorough: 20000, Shards: 4, Nobody: true, Run: func(t *mon.T, i int) { run(t, 50+t.Rng.IntN(100), 1+t.Rng.IntN(6), 600) }},
			{Name: "pieces", Quick: 400, Thorough: 6000, Shards: 4, Nobody: true, Run: func(t *mon.T, i int) { run(t, 1+t.Rng.IntN(20), 10+t.Rng.IntN(50), 400) }},
			{Name: "hundreds", Quick: 240, Thorough: 4000, Shards: 4, Nobody: true, Run: func(t *mon.T, i int) { run(t, 1+t.Rng.IntN(8), 64+t.Rng.IntN(600), 400) }},
			{Name: "thousands", Quick: 24, Thorough: 400, Shards: 4, Nobody: true, Run: func(t *mon.T, i int) { run(t, 1+t.Rng.IntN(300), 1000+t.Rng.IntN(4000), 300) }},
			{Name: "drain", Quick: 2000, Thorough: 30000, Shards: 4, Nobody: true, Run: drain},
		},
		Require: map[string]int{"handed out": 50000, "nothing to hand out": 20000, "with 63 peers or more": 500, "freed by a peer that went away": 2000},
	})
}

var client *env.Client

type sut struct {
	t     *mon.T
	ppt   *swarm.PeerPieceTracker
	own   *bf.Bitfield
	peers []*swarm.PeerHandler
	has   []map[int]bool // piece → peers
	by    []int          // piece → who it is asked from, or -1
	need  []bool
	hist  strings.Builder
}

func newSut(t *mon.T, peers, pieces int) *sut {
	if client == nil {
		tor := ref.GenTor(mon.RngFor(1, "c19"), ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 16})
		client = env.Seed(t, tor, nil)
	}
	s := &sut{t: t, own: bf.NewBitfield(int64(pieces)), need: make([]bool, pieces)}
	var shape []bool
	if pieces > 60 && t.Rng.IntN(2) == 0 {
		shape = ref.Shape(t.Rng, pieces)
	}
	for p := range s.need {
		s.need[p] = t.Rng.IntN(6) > 0
		if shape != nil {
			s.need[p] = shape[p]
		}
		s.own.Set(int64(p), !s.need[p])
		s.has = append(s.has, map[int]bool{})
		s.by = append(s.by, -1)
	}
	same := t.Rng.IntN(4) == 0
	for k := 0; k < peers; k++ {
		// Peers may have the same address, or the same ID, or both: a tracker
		// can list a peer twice
		id := env.PeerID(k)
		ip := net.IPv4(10, 0, 0, byte(k%5))
		port := uint16(1000 + k)
		switch t.Rng.IntN(3) {
		case 0:
			id = ""
		case 1:
			port = 7777
		}
		if same {
			id, ip, port = "same", net.IPv4(10, 0, 0, byte(k%2)), 7777
		}
		s.peers = append(s.peers, swarm.NewPeerHandler(peer.MakePeer(id, ip, port), client.Swarm, nil))
	}
	s.ppt = swarm.NewPeerPieceTracker(uint32(pieces), s.own)
	return s
}

func (s *sut) next(w int) bool {
	got, ok := s.ppt.NextPiece(s.peers[w])
	best := 1 << 30
	for p := range s.need {
		if s.need[p] && s.by[p] < 0 && s.has[p][w] {
			best = min(best, min(63, len(s.has[p])))
		}
	}
	fmt.Fprintf(&s.hist, "next(%d)=%d,%v; ", w, got, ok)
	h := s.hist.String()
	if len(h) > 3000 {
		h = "..." + h[len(h)-3000:]
	}
	fail := func(fp, f string, a ...any) bool {
		s.t.Failf(fp, "%s\n%d pieces; history: %s", fmt.Sprintf(f, a...), len(s.need), h)
		return false
	}
	if !ok {
		if best < 1<<30 {
			return fail("none", "nothing is handed out to peer %d, although there is a piece with %d peers", w, best)
		}
		s.t.Event("nothing to hand out", 1)
		return true
	}
	if int64(got) >= int64(len(s.need)) {
		return fail("outside", "piece %d is handed out", got)
	}
	p := int(got)
	switch {
	case !s.need[p]:
		return fail("owned", "piece %d, which is there, is handed out", p)
	case s.by[p] >= 0:
		return fail("twice", "piece %d, which is asked from peer %d, is handed out to peer %d", p, s.by[p], w)
	case !s.has[p][w]:
		return fail("not-there", "piece %d is handed out to peer %d, which does not have it", p, w)
	case min(63, len(s.has[p])) > best:
		return fail("not-rarest", "piece %d with %d peers is handed out to peer %d, although there is one with %d", p, len(s.has[p]), w, best)
	}
	if len(s.has[p]) >= 63 {
		s.t.Event("with 63 peers or more", 1)
	}
	s.by[p] = w
	s.t.Event("handed out", 1)
	return true
}

func (s *sut) register(w int, idx ...uint32) {
	fmt.Fprintf(&s.hist, "has(%d)%v; ", w, idx)
	s.ppt.Register(s.peers[w], idx...)
	for _, p := range idx {
		s.has[p][w] = true
	}
}

func (s *sut) bitfield(w int, prob int) {
	b := bf.NewBitfield(int64(len(s.need)))
	var shape []bool
	if s.t.Rng.IntN(3) == 0 {
		shape = ref.Shape(s.t.Rng, len(s.need))
	}
	for p := range s.need {
		if shape == nil && s.t.Rng.IntN(10) < prob || shape != nil && shape[p] {
			b.Set(int64(p), true)
			s.has[p][w] = true
		}
	}
	fmt.Fprintf(&s.hist, "bits(%d)%x; ", w, b.Data())
	s.ppt.RegisterBF(s.peers[w], b)
}

func (s *sut) leave(w int) {
	fmt.Fprintf(&s.hist, "leave(%d); ", w)
	s.ppt.Unregister(s.peers[w])
	for p := range s.need {
		delete(s.has[p], w)
		if s.by[p] == w {
			s.by[p] = -1
			s.t.Event("freed by a peer that went away", 1)
		}
	}
}

func run(t *mon.T, peers, pieces, steps int) {
	r := t.Rng
	s := newSut(t, peers, pieces)
	prob := []int{1, 5, 9}[r.IntN(3)]
	if peers > 40 {
		for w := 0; w < peers; w++ {
			s.bitfield(w, []int{prob, 9, 10}[r.IntN(3)])
		}
	}
	for k := 0; k < steps; k++ {
		w := r.IntN(peers)
		switch op := r.IntN(20); {
		case op < 4:
			n := 1 + r.IntN(3)
			var idx []uint32
			for ; n > 0; n-- {
				idx = append(idx, uint32(r.IntN(pieces)))
			}
			s.register(w, idx...)
		case op < 7:
			s.bitfield(w, prob)
		case op < 10:
			s.leave(w)
		case op == 10:
			p := r.IntN(pieces)
			s.need[p] = false
			s.own.Set(int64(p), true)
			fmt.Fprintf(&s.hist, "done(%d); ", p)
		default:
			if !s.next(w) {
				return
			}
		}
	}
	h := s.hist.String()
	t.Key(h)
	t.Sample("%d peers, %d pieces: %s", peers, pieces, h)
}

// drain asks until nothing is left: everything is handed out exactly once, in
// order of rarity; then everyone leaves, and it works again.
func drain(t *mon.T, i int) {
	r := t.Rng
	s := newSut(t, 1+r.IntN(80), 1+r.IntN(20))
	for round := 0; round < 3; round++ {
		for w := range s.peers {
			s.bitfield(w, r.IntN(11))
		}
		for miss := 0; miss < 2; {
			any := false
			for _, w := range r.Perm(len(s.peers)) {
				before := s.by
				n := 0
				for _, b := range before {
					if b >= 0 {
						n++
					}
				}
				if !s.next(w) {
					return
				}
				m := 0
				for _, b := range s.by {
					if b >= 0 {
						m++
					}
				}
				any = any || m > n
			}
			if !any {
				miss++
			}
		}
		for _, w := range r.Perm(len(s.peers)) {
			if r.IntN(5) > 0 {
				s.leave(w)
			}
		}
	}
	h := s.hist.String()
	t.Key(h)
	t.Sample("%d peers, %d pieces: %s", len(s.peers), len(s.need), h)
}
