// C18: peers get exactly the bytes that they ask for, of pieces that are there.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"testing/synctest"

	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C18",
		Rule: "Clients that own random subsets of the pieces of random torrents, and one to five peers at the same time that send requests: for blocks at all places of all pieces, whole pieces, single bytes, the last piece, " +
			"repeated, of pieces that are missing, of pieces that do not exist, and with begins and lengths up to 2^32-1 that run past the end or wrap around; between messages of other types (states, announcements, keepalives, cancels of something else); up to 120 peers, thousands of requests, and files of more than 4 GiB (sparse). Online monitor per connection: every piece message answers the " +
			"oldest open request, with exactly the bytes of the torrent; a request for what the client lacks or what does not exist is never answered; what is valid is answered until an invalid one is sent. " +
			"Also files that become unreadable while the client runs. In fake time under the race detector. Distinct by torrent and requests.",
		Assumptions: []string{"nothing else changes the bytes of the files while the client runs (it may cut them)"},
		Scenarios: []mon.Scenario{
			{Name: "requests", Quick: 1500, Thorough: 25000, Shards: 6, Nobody: true, Sync: true, Run: requests},
			{Name: "large", Quick: 60, Thorough: 600, Shards: 4, Nobody: true, Sync: true, Run: large},
			{Name: "crowd", Quick: 40, Thorough: 400, Shards: 4, Nobody: true, Sync: true, Run: crowd},
			{Name: "huge", Quick: 2, Thorough: 20, Shards: 2, Nobody: true, Sync: true, Run: huge},
			{Name: "unreadable", Quick: 400, Thorough: 5000, Shards: 2, Nobody: true, Sync: true, Run: unreadable},
		},
		Require: map[string]int{"blocks served": 10000, "missing pieces asked for": 2000, "invalid requests": 500, "peers at the same time": 1000, "unreadable pieces": 50, "other messages": 5000, "blocks beyond 4 GiB": 10},
	})
}

type kind int

const (
	valid kind = iota
	missing
	invalid
	empty // asks for no bytes: anything but wrong bytes will do
)

type req struct {
	i, b, n uint32
	kind    kind
}

func (q req) String() string {
	return fmt.Sprintf("%d[%d+%d]%s", q.i, q.b, q.n, []string{"", " missing", " invalid", " empty"}[q.kind])
}

// one makes a request. Unless bad, it is for bytes that exist.
func one(r *rand.Rand, tor *ref.Tor, owned []bool, bad bool) req {
	np := tor.NumPieces()
	p := r.Int64N(np)
	if r.IntN(4) == 0 {
		p = np - 1
	}
	n := int64(len(tor.Piece(p)))
	q := req{i: uint32(p)}
	switch r.IntN(6) {
	case 0:
		q.n = uint32(n)
	case 1:
		q.b, q.n = uint32(n-1), 1
	case 2:
		q.b = uint32(r.Int64N(n))
		q.n = uint32(n) - q.b
	case 3:
		q.n = 1
	default:
		b := r.Int64N(n)
		q.b, q.n = uint32(b), uint32(1+r.Int64N(n-b))
	}
	if bad {
		m := uint32(n)
		switch r.IntN(10) {
		case 0:
			q.i = uint32(np) + r.Uint32N(3)
		case 1:
			q.i = []uint32{1<<32 - 1, 1 << 31, 1<<31 - 1, uint32(np + 7)}[r.IntN(4)]
		case 2:
			q.b, q.n = m, 1
		case 3:
			q.n = m - q.b + 1
		case 4: // wraps around to a fitting end
			q.b = 1<<32 - 1 - r.Uint32N(3)
			q.n = 0 - q.b + r.Uint32N(m+1)
		case 5:
			q.n = 1<<32 - 1 - r.Uint32N(3)
		case 6: // within the length of the other pieces
			q.i = uint32(np - 1)
			q.b, q.n = 0, uint32(tor.PieceLen)
		case 7:
			q.b = m + r.Uint32N(100)
			q.n = 1 + r.Uint32N(16384)
		case 8:
			q.b, q.n = 1<<31, 1<<31
		default:
			q.n = 0
		}
	}
	q.kind = valid
	switch {
	case int64(q.i) >= np:
		q.kind = invalid
	case int64(q.b)+int64(q.n) > int64(len(tor.Piece(int64(q.i)))):
		q.kind = invalid
		if !owned[q.i] {
			q.kind = missing // ignored either way
		}
	case q.n == 0:
		q.kind = empty
	case !owned[q.i]:
		q.kind = missing
	}
	return q
}

// other is a message that asks for nothing, and takes nothing back.
func other(r *rand.Rand, tor *ref.Tor, reqs []req) []byte {
	switch r.IntN(8) {
	case 0:
		return env.Msg{Type: -1}.Bytes()
	case 1:
		return env.Msg{Type: 4, Payload: binary.BigEndian.AppendUint32(nil, r.Uint32N(uint32(tor.NumPieces())))}.Bytes()
	case 2: // cancels what is not asked for
		q := one(r, tor, make([]bool, tor.NumPieces()), false)
		for _, o := range reqs {
			if o.i == q.i && o.b == q.b && o.n == q.n {
				return nil
			}
		}
		m := env.Request(q.i, q.b, q.n)
		m.Type = 8
		return m.Bytes()
	case 3:
		b := make([]bool, tor.NumPieces())
		for k := range b {
			b[k] = r.IntN(2) == 0
		}
		return env.Msg{Type: 5, Payload: env.Bits(b)}.Bytes()
	default: // choke, unchoke, interested, not interested
		return env.Msg{Type: r.IntN(4)}.Bytes()
	}
}

// judge checks all that the client sent in answer to a list of requests, when
// nothing can happen any more.
func judge(t *mon.T, tor *ref.Tor, s *env.Session, reqs []req) {
	_, msgs, _, ended, err := s.State()
	fail := func(fp, f string, a ...any) {
		t.Failf(fp, "%s\n%s\nrequests: %.1500v", fmt.Sprintf(f, a...), tor.Describe(), reqs)
	}
	at := 0 // the oldest open request
	for _, m := range msgs {
		i, b, d, ok := m.Piece()
		if m.Type == 7 && !ok {
			fail("malformed", "a malformed piece message: %v", m)
			return
		}
		if !ok {
			continue
		}
		// which request does it answer?
		for at < len(reqs) && !(reqs[at].i == i && reqs[at].b == b && reqs[at].n == uint32(len(d)) && reqs[at].kind != missing && reqs[at].kind != invalid) {
			if reqs[at].kind == valid {
				fail("wrong-answer", "block %d[%d+%d] was sent when the oldest open request was %v", i, b, len(d), reqs[at])
				return
			}
			at++
		}
		if at == len(reqs) {
			fail("not-asked", "block %d[%d+%d] was sent, and there is no open request that it answers", i, b, len(d))
			return
		}
		if want := tor.Piece(int64(i))[b : b+uint32(len(d))]; !bytes.Equal(d, want) {
			fail("wrong-bytes", "block %d[%d+%d]: %s", i, b, len(d), ref.DiffBytes(want, d))
			return
		}
		t.Event("blocks served", 1)
		at++
	}
	hadInvalid := false
	for k, q := range reqs {
		switch q.kind {
		case missing:
			t.Event("missing pieces asked for", 1)
		case invalid:
			t.Event("invalid requests", 1)
			hadInvalid = true
		case empty:
			hadInvalid = true // (a client may hang up on it)
		case valid:
			if k >= at && !hadInvalid {
				_, herr := s.Handler()
				fail("no-answer", "request %d (%v) was not answered; connection ended: %v (%v, %v)", k, q, ended, err, herr)
				return
			}
		}
		if hadInvalid && ended {
			return
		}
	}
	if ended && !hadInvalid {
		fail("ended", "the client ended the connection: %v", err)
	}
	if !ended && at < len(reqs) {
		for _, q := range reqs[at:] {
			if q.kind == valid {
				fail("no-answer", "request %v was not answered, and the connection is open", q)
				return
			}
		}
	}
}

func seed(t *mon.T, tor *ref.Tor) (*env.Client, []bool) {
	owned := make([]bool, tor.NumPieces())
	p := []int{0, 2, 5, 8, 9, 10, 10}[t.Rng.IntN(7)]
	for k := range owned {
		owned[k] = t.Rng.IntN(10) < p
	}
	return env.Seed(t, tor, owned), owned
}

func requests(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxPiece: 200})
	run(t, tor, 1+r.IntN(5), 25)
}

func large(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 16384<<r.IntN(7) + r.Int64N(3) - 1, MaxFiles: 8, MaxLen: 3 << 20, MinTotal: 1 << 20})
	if i%20 == 0 {
		tor = ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 1<<(21+r.IntN(4)) + r.Int64N(3) - 1, MaxFiles: 3, MaxLen: 9 << 20, MinTotal: 4 << 20})
	}
	run(t, tor, 4, 10)
}

// crowd has very many peers, or one with very many requests.
func crowd(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxPiece: 200})
	if i%2 == 0 {
		run(t, tor, 20+r.IntN(100), 6)
	} else {
		run(t, tor, 2, 4000)
	}
}

// huge has a file of more than 4 GiB.
func huge(t *mon.T, i int) {
	r := t.Rng
	s := ref.GenSparse(r, env.Shared().URL+"/a")
	dir := filepath.Join(t.Dir(), "work")
	have := map[int64]bool{}
	for _, p := range s.Odd {
		if r.IntN(4) > 0 {
			have[p] = true
		}
	}
	s.Lay(dir, have)
	c, err := env.NewClient(s.Tor, filepath.Join(t.Dir(), "x.torrent"), dir)
	if err != nil {
		t.Failf("error", "the client does not start: %v\n%s", err, s.Describe())
		return
	}
	defer c.Fileio.CloseAll()
	t.Key(s.Raw, fmt.Sprint(have))
	t.Sample("%s", s.Describe())
	synctest.Test(t.TT, func(_ *testing.T) {
		ss := env.Connect(c, 6000)
		ss.C.Write(env.Handshake(s.Infohash, env.PeerID(1)))
		var want []req
		for k := 0; k < 60; k++ {
			p := s.Odd[r.IntN(len(s.Odd))]
			n := r.Int64N(1<<16) + 1
			b := r.Int64N(max(1, int64(len(s.Data[p]))-n))
			n = min(n, int64(len(s.Data[p]))-b)
			q := req{uint32(p), uint32(b), uint32(n), valid}
			if have[p] {
				want = append(want, q)
			}
			env.Send(ss.C, env.Request(q.i, q.b, q.n).Bytes())
		}
		synctest.Wait()
		_, msgs, _, ended, err := ss.State()
		for _, m := range msgs {
			i, b, d, ok := m.Piece()
			if !ok {
				continue
			}
			if len(want) == 0 || want[0].i != i || want[0].b != b || int(want[0].n) != len(d) {
				t.Failf("not-asked", "%s: block %d[%d+%d] was sent, the open requests are %.200v", s.Describe(), i, b, len(d), want)
				break
			}
			if w := s.Data[int64(i)][b : int(b)+len(d)]; !bytes.Equal(w, d) {
				t.Failf("wrong-bytes", "%s: block %d[%d+%d]: %s", s.Describe(), i, b, len(d), ref.DiffBytes(w, d))
				break
			}
			want = want[1:]
			t.Event("blocks served", 1)
			if int64(i)*s.PieceLen > 1<<32 {
				t.Event("blocks beyond 4 GiB", 1)
			}
		}
		if !t.Failed() && (len(want) > 0 || ended) {
			t.Failf("no-answer", "%s: %d requests were not answered: %.200v; ended: %v (%v)", s.Describe(), len(want), want, ended, err)
		}
		ss.Finish()
		synctest.Wait()
	})
}

func run(t *mon.T, tor *ref.Tor, peers, maxReqs int) {
	r := t.Rng
	c, owned := seed(t, tor)
	if c == nil {
		return
	}
	all := make([][]req, peers)
	cuts := make([]bool, peers)
	lead := make([][]byte, peers)
	between := make([][][]byte, peers)
	for p := range all {
		pb := []int{0, 0, 1}[r.IntN(3)]
		for k := r.IntN(maxReqs); k >= 0; k-- {
			all[p] = append(all[p], one(r, tor, owned, pb > 0 && r.IntN(8) == 0))
		}
		between[p] = make([][]byte, len(all[p]))
		if r.IntN(2) == 0 { // what a peer usually says first
			lead[p] = append(env.Msg{Type: []int{2, 1}[r.IntN(2)]}.Bytes(), other(r, tor, all[p])...)
		}
		if r.IntN(2) == 0 {
			for k := range between[p] {
				for r.IntN(3) == 0 {
					between[p][k] = append(between[p][k], other(r, tor, all[p])...)
					t.Event("other messages", 1)
				}
			}
		}
		cuts[p] = r.IntN(2) == 0
		t.Key(tor.Raw, fmt.Sprint(all[p], owned), fmt.Sprint(lead[p], between[p]))
	}
	t.Sample("%s, owned %v; %.200v", tor.Describe(), owned, all)
	synctest.Test(t.TT, func(_ *testing.T) {
		ss := make([]*env.Session, peers)
		for p := range ss {
			ss[p] = env.Connect(c, 4000+p)
			ss[p].C.Write(env.Handshake(tor.Infohash, env.PeerID(p)))
		}
		var wg sync.WaitGroup
		for p := range ss {
			wg.Add(1)
			go func() {
				defer wg.Done()
				b := lead[p]
				if cuts[p] && env.Send(ss[p].C, b) != nil {
					return
				}
				for k, q := range all[p] {
					m := append(between[p][k], env.Request(q.i, q.b, q.n).Bytes()...)
					if cuts[p] {
						if env.Send(ss[p].C, m) != nil {
							return
						}
					}
					b = append(b, m...)
				}
				if !cuts[p] {
					env.Send(ss[p].C, b)
				}
			}()
		}
		wg.Wait()
		synctest.Wait()
		t.Event("peers at the same time", peers)
		for p := range ss {
			judge(t, tor, ss[p], all[p])
		}
		for p := range ss {
			ss[p].Finish()
		}
		synctest.Wait()
	})
}

// unreadable: a file is cut while the client runs. What is gone is not made up.
func unreadable(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxPiece: 200})
	c := env.Seed(t, tor, nil)
	if c == nil {
		return
	}
	f := r.IntN(len(tor.Files))
	if tor.Files[f].Len == 0 {
		return
	}
	cut := r.Int64N(tor.Files[f].Len)
	if err := os.Truncate(tor.LocalPath(c.Dir, f), cut); err != nil {
		panic(err)
	}
	lo, hi := tor.Start(f)+cut, tor.Start(f)+tor.Files[f].Len
	owned := make([]bool, tor.NumPieces())
	for p := range owned {
		a := int64(p) * tor.PieceLen
		b := a + int64(len(tor.Piece(int64(p))))
		owned[p] = b <= lo || a >= hi
	}
	t.Key(tor.Raw, f, cut)
	t.Sample("%s: file %d is cut to %d bytes", tor.Describe(), f, cut)
	synctest.Test(t.TT, func(_ *testing.T) {
		for p := range owned {
			if p > 30 {
				break
			}
			s := env.Connect(c, 5000+p)
			s.C.Write(env.Handshake(tor.Infohash, env.PeerID(p)))
			q := req{uint32(p), 0, uint32(len(tor.Piece(int64(p)))), valid}
			env.Send(s.C, env.Request(q.i, q.b, q.n).Bytes())
			synctest.Wait()
			if owned[p] {
				judge(t, tor, s, []req{q})
			} else {
				t.Event("unreadable pieces", 1)
				_, msgs, _, _, _ := s.State()
				for _, m := range msgs {
					if i, b, d, ok := m.Piece(); ok && len(d) > 0 && !bytes.Equal(d, tor.Piece(int64(i))[b:int(b)+len(d)]) {
						t.Failf("wrong-bytes", "file %d was cut to %d bytes, and wrong bytes were sent for piece %d\n%s", f, cut, p, tor.Describe())
					}
				}
			}
			s.Finish()
		}
		synctest.Wait()
	})
}
