// Package world watches what a client requests from its peers.
package world

import (
	"fmt"
	"math/rand/v2"
	"sort"
	"testing/synctest"
	"time"

	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

// Block is what a request is for.
type Block struct{ Begin, N int64 }

// Who is a peer, as the monitor sees it.
type Who struct {
	*env.Session
	Name      int
	Announced []bool
	Connected bool
	Stray     bool // announced bits past the end
	Seen      int  // messages looked at
	Blocks    map[uint32][]Block
	Order     []uint32 // the pieces requested from the peer
}

// World is a client and its peers.
type World struct {
	T     *mon.T
	C     *env.Client
	Tor   *ref.Tor
	Owned []bool
	Peers []*Who
	Log   []string
	Left  map[uint32]bool // requested from a peer that left
}

// Note adds to the history.
func (w *World) Note(f string, a ...any) { w.Log = append(w.Log, fmt.Sprintf(f, a...)) }

func (w *World) Fail(fp, f string, a ...any) {
	w.T.Failf(fp, "%s\n%s\nowned %s\n%.3000v", fmt.Sprintf(f, a...), w.Tor.Describe(), Bits(w.Owned), w.Log)
}

func Bits(b []bool) string {
	s := ""
	for _, x := range b {
		if x {
			s += "1"
		} else {
			s += "0"
		}
	}
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

// Take looks at the new messages of a peer.
func (w *World) Take(p *Who) {
	_, msgs, _, _, _ := p.State()
	for ; p.Seen < len(msgs); p.Seen++ {
		m := msgs[p.Seen]
		if m.Type != 6 {
			continue
		}
		w.Request(p, m)
	}
}

func (w *World) Request(p *Who, m env.Msg) {
	i, b, n, ok := m.Req()
	w.T.Event("requests", 1)
	switch {
	case !ok:
		w.Fail("malformed", "peer %d: malformed request %v", p.Name, m)
	case int64(i) >= w.Tor.NumPieces():
		w.Fail("no-such-piece", "peer %d: request %d[%d+%d]", p.Name, i, b, n)
	case w.Owned[i]:
		w.Fail("owned", "peer %d: request %d[%d+%d] for a piece that is there", p.Name, i, b, n)
	case !p.Announced[i]:
		w.Fail("not-announced", "peer %d: request %d[%d+%d], announced was %s", p.Name, i, b, n, Bits(p.Announced))
	case n > 16384:
		w.Fail("too-long", "peer %d: request %d[%d+%d]", p.Name, i, b, n)
	case n == 0 || int64(b)+int64(n) > int64(len(w.Tor.Piece(int64(i)))):
		w.Fail("bounds", "peer %d: request %d[%d+%d], the piece has %d bytes", p.Name, i, b, n, len(w.Tor.Piece(int64(i))))
	}
	if w.T.Failed() {
		return
	}
	if len(p.Blocks[i]) == 0 {
		p.Order = append(p.Order, i)
		w.T.Event("pieces requested", 1)
		if int64(i) == w.Tor.NumPieces()-1 {
			w.T.Event("last pieces requested", 1)
		}
		if w.Left[i] {
			w.T.Event("requested again after a peer left", 1)
		}
		for _, q := range w.Peers {
			if q != p && q.Connected && len(q.Blocks[i]) > 0 {
				w.Fail("twice", "piece %d is requested from peer %d and from peer %d", i, q.Name, p.Name)
			}
		}
		if len(p.Order) > 5 {
			w.Fail("too-many", "pieces %v are requested from peer %d", p.Order, p.Name)
		}
		if len(p.Order) == 5 {
			w.T.Event("peers with five", 1)
		}
	}
	p.Blocks[i] = append(p.Blocks[i], Block{int64(b), int64(n)})
}

// TakeAll looks at the new messages of all connected peers.
func (w *World) TakeAll() {
	for _, p := range w.Peers {
		if p.Connected {
			w.Take(p)
		}
	}
}

// Tiled checks that all requested pieces are requested completely, and once.
func (w *World) Tiled(p *Who) {
	for _, i := range p.Order {
		l := append([]Block{}, p.Blocks[i]...)
		sort.Slice(l, func(a, b int) bool { return l[a].Begin < l[b].Begin })
		at := int64(0)
		for _, b := range l {
			if b.Begin != at {
				w.Fail("tiles", "piece %d of %d bytes is requested from peer %d in blocks %.600v", i, len(w.Tor.Piece(int64(i))), p.Name, p.Blocks[i])
				return
			}
			at += b.N
		}
		if at != int64(len(w.Tor.Piece(int64(i)))) {
			w.Fail("tiles", "piece %d of %d bytes is requested from peer %d in blocks %.600v", i, len(w.Tor.Piece(int64(i))), p.Name, p.Blocks[i])
			return
		}
	}
}

// Settled says whether Quiet has nothing to wait for.
func (w *World) Settled() bool {
	w.TakeAll()
	busy := map[uint32]bool{}
	for _, p := range w.Peers {
		if !p.Connected {
			continue
		}
		for _, i := range p.Order {
			busy[i] = true
			n := int64(0)
			for _, b := range p.Blocks[i] {
				n += b.N
			}
			if n < int64(len(w.Tor.Piece(int64(i)))) {
				return false
			}
		}
	}
	for _, p := range w.Peers {
		if !p.Connected || len(p.Order) >= 5 {
			continue
		}
		for i := range p.Announced {
			if p.Announced[i] && !w.Owned[i] && !busy[uint32(i)] {
				return false
			}
		}
	}
	return true
}

// Quiet is called when nothing happens any more.
func (w *World) Quiet() {
	w.T.Event("quiet states", 1)
	busy := map[uint32]bool{}
	for _, p := range w.Peers {
		if !p.Connected {
			continue
		}
		w.Take(p)
		w.Tiled(p)
		for _, i := range p.Order {
			busy[i] = true
		}
	}
	for _, p := range w.Peers {
		if !p.Connected {
			continue
		}
		if _, _, _, ended, err := p.State(); ended {
			if !p.Stray {
				w.Fail("ended", "peer %d was disconnected: %v", p.Name, err)
			}
			continue
		}
		if len(p.Order) >= 5 {
			continue
		}
		for i := range p.Announced {
			if p.Announced[i] && !w.Owned[i] && !busy[uint32(i)] {
				w.Fail("not-requested", "piece %d is missing and with peer %d, from which only %v is requested, and it is not requested from anyone", i, p.Name, p.Order)
				return
			}
		}
	}
}

// Probe connects a peer that announces all pieces, and checks that what is
// requested from it is the rarest among the connected peers. It must be called
// when nothing happens any more.
func (w *World) Probe() *Who {
	busy := map[uint32]bool{}
	count := make([]int, len(w.Owned))
	for _, p := range w.Peers {
		if !p.Connected {
			continue
		}
		for _, i := range p.Order {
			busy[i] = true
		}
		for i, a := range p.Announced {
			if a {
				count[i]++
			}
		}
	}
	q := w.Connect()
	synctest.Wait()
	for i := range q.Announced {
		q.Announced[i] = true
	}
	w.Note("peer %d announces all;", q.Name)
	q.C.Write(env.Msg{Type: 5, Payload: env.Bits(q.Announced)}.Bytes())
	time.Sleep(time.Second)
	synctest.Wait()
	w.Take(q)
	w.T.Event("probes", 1)
	for _, i := range q.Order {
		if busy[i] {
			w.Fail("busy", "piece %d is requested from peer %d, and is with another peer", i, q.Name)
			return q
		}
		for j := range count {
			if !w.Owned[j] && !busy[uint32(j)] && count[j] < count[i] && count[j] < 62 {
				w.Fail("not-rarest", "peer %d has all pieces, and is asked for %v: piece %d (with %d others) comes before piece %d (with %d others)", q.Name, q.Order, i, count[i], j, count[j])
				return q
			}
		}
		busy[i] = true
		w.T.Event("rarest checked", 1)
	}
	return q
}

// Connect makes a peer that does the handshake.
func (w *World) Connect() *Who {
	p := &Who{Name: len(w.Peers), Announced: make([]bool, w.Tor.NumPieces()), Connected: true, Blocks: map[uint32][]Block{}}
	p.Session = env.Connect(w.C, 2000+p.Name)
	w.Peers = append(w.Peers, p)
	w.Note("peer %d connects;", p.Name)
	p.C.Write(env.Handshake(w.Tor.Infohash, env.PeerID(p.Name)))
	return p
}

func (w *World) Announce(r *rand.Rand, p *Who) {
	mode := r.IntN(6)
	var shape []bool
	if len(p.Announced) > 50 {
		shape, mode = ref.Shape(r, len(p.Announced)), 1+r.IntN(9)
	}
	for k := range p.Announced {
		switch mode {
		case 0:
			p.Announced[k] = true
		case 1:
			p.Announced[k] = p.Announced[k] || w.Owned[k]
		case 2:
		case 3:
			p.Announced[k] = p.Announced[k] || r.IntN(len(p.Announced)) == 0
		default:
			if shape != nil {
				p.Announced[k] = p.Announced[k] || shape[k]
			} else {
				p.Announced[k] = p.Announced[k] || r.IntN(2) == 0
			}
		}
	}
	b := env.Bits(p.Announced)
	if len(p.Announced)%8 != 0 && r.IntN(12) == 0 {
		p.Stray = true // (a client may hang up on it)
		b[len(b)-1] |= 1 << r.IntN(8-len(p.Announced)%8)
	}
	w.Note("peer %d announces %x;", p.Name, b)
	p.C.Write(env.Msg{Type: 5, Payload: b}.Bytes())
}

func (w *World) Leave(p *Who) {
	synctest.Wait()
	w.TakeAll()
	w.Note("peer %d leaves;", p.Name)
	p.Connected = false
	for _, i := range p.Order {
		w.Left[i] = true
	}
	p.C.Close()
	<-p.Done
}

func (w *World) End() {
	for _, p := range w.Peers {
		p.Finish()
	}
	synctest.Wait()
}

func Start(t *mon.T, tor *ref.Tor) *World {
	r := t.Rng
	owned := make([]bool, tor.NumPieces())
	if len(owned) > 50 && r.IntN(3) > 0 {
		owned = ref.Shape(r, len(owned))
	} else {
		f := []int{0, 1, 3, 8, 9}[r.IntN(5)]
		for k := range owned {
			owned[k] = r.IntN(10) < f
		}
	}
	c := env.Seed(t, tor, owned)
	if c == nil {
		return nil
	}
	return &World{T: t, C: c, Tor: tor, Owned: owned, Left: map[uint32]bool{}}
}
