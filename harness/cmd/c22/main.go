// C22: a peer that goes away leaves nothing behind.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"runtime"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	gio "gotor/io"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/world"
)

func main() {
	mon.Main(mon.Check{
		ID: "C22",
		Rule: "Clients with random pieces and one to six peers, or crowds of up to 60, that announce, request and are asked for pieces. Rounds in which one or more of them end at the same time, in all ways: closed while idle, while connecting, " +
			"within the handshake, within a message, while the client writes a large block that is not read, with requests in flight; a message that is too long, a bitfield of the wrong size, a request for what does not exist, " +
			"a piece that cannot be read; silent for two minutes; neither reading nor closing; sending but not reading; writes that fail; while an upload limit, down to zero, holds back what it is to get. Monitors: the client has closed its end and its handler has returned, in the time that the kind of ending allows; the pieces " +
			"that the peer was to send are requested from others; what is requested from a new peer that has everything is the rarest among the peers that are left; the others are served; and at the end no goroutine of the " +
			"client is left. Distinct by torrent and history.",
		Assumptions: []string{"fake time; connections in memory on which a write blocks until the peer reads"},
		Scenarios: []mon.Scenario{
			{Name: "endings", Quick: 900, Thorough: 15000, Shards: 7, Nobody: true, Sync: true, Run: endings},
			{Name: "limited", Quick: 60, Thorough: 1000, Shards: 7, Nobody: true, Sync: true, Run: limited},
			{Name: "large", Quick: 60, Thorough: 800, Shards: 2, Nobody: true, Sync: true, Run: large},
		},
		Require: map[string]int{"endings": 2000, "pieces requested": 3000, "requested again after a peer left": 300, "probes": 300, "rarest checked": 300, "served after an ending": 500, "stalled peers": 50, "idle peers": 100, "peers that only send": 100, "failing writes": 100, "endings under a limit": 60, "answers when the limit was lifted": 15},
	})
}

func endings(t *mon.T, i int) {
	r := t.Rng
	pl := 1 + r.Int64N(300)
	np := 1 + r.Int64N(24)
	if r.IntN(6) == 0 {
		pl, np = 1+r.Int64N(4), 60+r.Int64N(300)
	}
	run(t, ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 3, MaxLen: pl * np, MinTotal: pl}), 8)
}

func large(t *mon.T, i int) {
	r := t.Rng
	pl := 100000 + r.Int64N(200000)
	run(t, ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 3, MaxLen: pl * 4, MinTotal: pl * 2}), 4)
}

// end starts to end the connection of a peer, and returns in what time the
// client must be done with it.
func end(t *mon.T, w *world.World, p *world.Who) (time.Duration, string) {
	r := t.Rng
	np := uint32(w.Tor.NumPieces())
	full := func() []byte { // a request that the client answers, or not
		i := r.Uint32N(np)
		return env.Request(i, 0, uint32(len(w.Tor.Piece(int64(i))))).Bytes()
	}
	switch r.IntN(16) {
	case 0:
		p.C.Close()
		return 2 * time.Second, "closes"
	case 1:
		b := full()
		p.C.Write(b[:1+r.IntN(len(b)-1)])
		p.C.Close()
		return 2 * time.Second, "closes within a message"
	case 2:
		for k := r.IntN(5); k >= 0; k-- {
			p.C.Write(full())
		}
		p.C.Close()
		return 2 * time.Second, "closes after requests"
	case 3:
		p.StopReading()
		for k := 3; k > 0; k-- {
			p.C.SetWriteDeadline(time.Now().Add(time.Second))
			p.C.Write(full())
		}
		p.C.Close()
		return 2 * time.Second, "closes without reading"
	case 4:
		n := []uint32{1<<32 - 1, 1 << 31, 1 << 30, uint32(w.Tor.PieceLen) + uint32(np) + 200000}[r.IntN(4)]
		b := binary.BigEndian.AppendUint32(nil, n)
		p.C.Write(append(b, byte(r.IntN(10)), 0, 0))
		return time.Second, fmt.Sprintf("sends a message of %d bytes", n)
	case 5:
		n := int(np+7)/8 + []int{-1, 1, 2, 100}[r.IntN(4)]
		if n == 0 {
			n = 2
		}
		p.C.Write(env.Msg{Type: 5, Payload: bytes.Repeat([]byte{0xff}, n)}.Bytes())
		return time.Second, fmt.Sprintf("sends a bitfield of %d bytes", n)
	case 6:
		p.C.Write(env.Request(np+r.Uint32N(5), 0, 1).Bytes())
		return time.Second, "requests a piece that does not exist"
	case 7, 8:
		t.Event("idle peers", 1)
		if r.IntN(2) == 0 {
			p.C.Write([]byte{0, 0})
			return 121 * time.Second, "is silent, within a message"
		}
		return 121 * time.Second, "is silent"
	case 9, 10:
		t.Event("stalled peers", 1)
		p.StopReading()
		for k := 3; k > 0; k-- {
			p.C.SetWriteDeadline(time.Now().Add(time.Second))
			p.C.Write(full())
		}
		return 600 * time.Second, "neither reads nor sends"
	case 11:
		said := p.Announced
		if r.IntN(3) > 0 { // something else than before
			said = make([]bool, len(p.Announced))
			for k := range said {
				said[k] = r.IntN(2) == 0
				p.Announced[k] = p.Announced[k] || said[k]
			}
		}
		p.C.Write(env.Msg{Type: 5, Payload: env.Bits(said)}.Bytes())
		if r.IntN(2) == 0 {
			synctest.Wait()
		}
		p.C.Close()
		return 2 * time.Second, "announces and closes"
	case 12:
		go p.C.Write(bytes.Repeat(full(), 3))
		go p.C.Close()
		return 2 * time.Second, "closes while it sends"
	case 13:
		t.Event("peers that only send", 1)
		p.StopReading()
		go func() {
			for {
				if _, err := p.C.Write(env.Msg{Type: -1}.Bytes()); err != nil {
					return
				}
				time.Sleep(20 * time.Second)
			}
		}()
		return 600 * time.Second, "sends keepalives, and does not read"
	case 14:
		t.Event("failing writes", 1)
		p.End.FailWrites()
		return 61 * time.Second, "cannot be written to"
	default:
		p.C.SetReadDeadline(time.Unix(1, 0)) // (nothing is read any more)
		p.C.Close()
		return 2 * time.Second, "closes"
	}
}

// limited: peers end while the upload limit holds back what they are to get.
func limited(t *mon.T, i int) {
	r := t.Rng
	pl := 1000 + r.Int64N(40000)
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 3, MaxLen: pl * 10, MinTotal: pl * 2})
	w := world.Start(t, tor)
	if w == nil {
		return
	}
	owned := []uint32{}
	for k, o := range w.Owned {
		if o {
			owned = append(owned, uint32(k))
		}
	}
	rate := []int64{0, 0, 1, 17, 100}[r.IntN(5)]
	synctest.Test(t.TT, func(_ *testing.T) {
		old := w.C.RLIO
		lim := gio.NewRateLimitIO() // (its clock is the fake one)
		w.C.RLIO = lim
		lim.SetWriteRate(rate)
		w.Note("upload limit %d;", rate)
		go lim.Run()
		synctest.Wait() // (it starts to count anew when it runs)
		asked := map[*world.Who]int{}
		for n := 1 + r.IntN(5); n > 0; n-- {
			p := w.Connect()
			synctest.Wait()
			if r.IntN(3) > 0 {
				w.Announce(r, p)
				p.Stray = false
			}
			p.C.SetWriteDeadline(time.Now().Add(time.Second))
			for k := r.IntN(4); k > 0 && len(owned) > 0; k-- {
				q := owned[r.IntN(len(owned))]
				if _, err := p.C.Write(env.Request(q, 0, uint32(len(tor.Piece(int64(q))))).Bytes()); err != nil {
					break
				}
				asked[p]++
			}
			p.C.SetWriteDeadline(time.Time{})
		}
		time.Sleep(time.Duration(r.IntN(5000)) * time.Millisecond)
		synctest.Wait()
		on := connected(w)
		limit := 130 * time.Second
		victims := map[*world.Who]bool{}
		for k := 1 + r.IntN(len(on)+1); k > 0 && len(on) > 0; k-- {
			p := on[r.IntN(len(on))]
			if victims[p] {
				continue
			}
			victims[p] = true
			h := ""
			switch r.IntN(5) {
			case 0:
				h = "cannot be written to"
				p.End.FailWrites()
			case 1:
				h = "neither reads nor sends"
				p.StopReading()
				limit = 600 * time.Second
			default:
				h = "closes"
				p.C.Close()
			}
			w.Note("peer %d %s;", p.Name, h)
			t.Event("endings under a limit", 1)
		}
		for begin := time.Now(); time.Since(begin) < limit; {
			time.Sleep(25 * time.Second)
			for _, p := range on {
				if !victims[p] {
					p.C.SetWriteDeadline(time.Now().Add(time.Millisecond))
					p.C.Write(env.Msg{Type: -1}.Bytes()) // (not read while the handler waits for its turn)
				}
			}
			synctest.Wait()
		}
		for p := range victims {
			if !p.IsDone() || !p.End.Closed() {
				w.Fail("not-ended", "under an upload limit of %d, a peer that ended %v ago is still there: the handler has returned: %v, the connection is closed: %v", rate, limit, p.IsDone(), p.End.Closed())
			}
			w.Take(p)
			p.Connected = false
			for _, q := range p.Order {
				w.Left[q] = true
			}
		}
		w.Note("the limit is lifted;")
		lim.SetWriteRate(gio.NoLimit)
		for k := 0; k < 5; k++ {
			time.Sleep(time.Second)
			synctest.Wait()
		}
		if !t.Failed() {
			w.Quiet()
		}
		for _, p := range connected(w) {
			_, msgs, _, ended, err := p.State()
			if n := env.Count(msgs, 7); !ended && n != asked[p] || ended {
				w.Fail("not-served", "peer %d requested %d blocks and got %d when the limit was lifted (ended: %v, %v)", p.Name, asked[p], n, ended, err)
			}
			t.Event("answers when the limit was lifted", asked[p])
		}
		if !t.Failed() {
			w.Probe()
		}
		w.End()
		lim.Stop()
		synctest.Wait()
		w.C.RLIO = old
		if s := left(); s != "" {
			w.Fail("goroutines", "after all peers have gone:\n%s", s)
		}
	})
	t.Key(tor.Raw, fmt.Sprint(w.Log))
}

// halfway: connections that never become sessions.
func halfway(t *mon.T, w *world.World, port int) *env.Session {
	r := t.Rng
	s := env.Connect(w.C, port)
	hs := env.Handshake(w.Tor.Infohash, env.PeerID(port))
	switch r.IntN(4) {
	case 0:
	case 1:
		s.C.Write(hs[:1+r.IntN(67)])
	case 2:
		hs[r.IntN(48)] ^= 1
		s.C.Write(hs)
	case 3: // goes while the client answers
		s.StopReading()
		s.C.Write(hs)
	}
	if r.IntN(2) == 0 {
		s.C.Close()
	}
	return s
}

func run(t *mon.T, tor *ref.Tor, rounds int) {
	r := t.Rng
	w := world.Start(t, tor)
	if w == nil {
		return
	}
	ownedPiece := -1
	for k, o := range w.Owned {
		if o {
			ownedPiece = k
		}
	}
	most := 6
	if t.Index%40 == 0 { // a crowd
		most = 60
		rounds = 3
		t.Event("crowds", 1)
	}
	synctest.Test(t.TT, func(_ *testing.T) {
		var halves []*env.Session
		for round := 1 + r.IntN(rounds); round > 0 && !t.Failed(); round-- {
			on := connected(w)
			for len(on) < 1+r.IntN(most) {
				p := w.Connect()
				if r.IntN(6) > 0 {
					w.Announce(r, p)
				}
				on = append(on, p)
				if r.IntN(3) == 0 {
					synctest.Wait()
				}
			}
			if r.IntN(3) == 0 {
				halves = append(halves, halfway(t, w, 9000+len(halves)))
			}
			if r.IntN(3) > 0 {
				time.Sleep(time.Second)
				synctest.Wait()
				w.Quiet()
			} else if r.IntN(2) == 0 {
				synctest.Wait()
			}
			if t.Failed() {
				break
			}
			// some of them end
			victims := map[*world.Who]time.Duration{}
			how := map[*world.Who]string{}
			longest := time.Duration(0)
			w.TakeAll()
			for k := 1 + r.IntN(most/2); k > 0; k-- {
				p := on[r.IntN(len(on))]
				if _, ok := victims[p]; ok {
					continue
				}
				d, h := end(t, w, p)
				victims[p], how[p] = d, h
				longest = max(longest, d)
				w.Note("peer %d %s;", p.Name, h)
			}
			begin := time.Now()
			for d := time.Duration(0); d <= longest; {
				synctest.Wait()
				for p, limit := range victims {
					if d >= limit && !(p.IsDone() && p.End.Closed()) {
						w.Fail("not-ended", "peer %d %s; %v later the handler has returned: %v, the connection is closed: %v", p.Name, how[p], d, p.IsDone(), p.End.Closed())
						p.End.Close()
					}
				}
				if t.Failed() || d == longest {
					break
				}
				// the others stay
				step := min(longest-d, time.Second)
				if d > time.Second {
					step = min(longest-d, 20*time.Second)
				}
				time.Sleep(step)
				d = time.Since(begin)
				for _, p := range on {
					if _, ok := victims[p]; !ok && !p.IsDone() {
						p.C.Write(env.Msg{Type: -1}.Bytes())
					}
				}
			}
			for p := range victims {
				p.Connected = false
			}
			for p := range victims {
				w.Take(p)
				for _, q := range p.Order {
					w.Left[q] = true
				}
				p.C.Close()
				t.Event("endings", 1)
			}
			for _, s := range halves {
				time.Sleep(2 * time.Second)
				synctest.Wait()
				if h, _ := s.Handler(); h == nil && !(s.IsDone() && s.End.Closed()) {
					if _, msgs, _, _, _ := s.State(); len(msgs) == 0 && !stuck(s) {
						w.Fail("not-ended", "a connection without handshake is there after 2 seconds")
					}
				}
				s.C.Close()
			}
			synctest.Wait()
			for _, s := range halves {
				if !s.IsDone() {
					w.Fail("not-ended", "a connection that was closed is still handled")
				}
			}
			halves = nil
			if t.Failed() {
				break
			}
			time.Sleep(time.Second)
			synctest.Wait()
			w.Quiet()
			if r.IntN(2) == 0 && !t.Failed() {
				w.Probe()
			}
			// the others are served
			for _, p := range connected(w) {
				if ownedPiece < 0 || t.Failed() || p.Stray {
					break
				}
				want := tor.Piece(int64(ownedPiece))
				_, before, _, _, _ := p.State()
				p.C.Write(env.Request(uint32(ownedPiece), 0, uint32(len(want))).Bytes())
				synctest.Wait()
				_, msgs, _, ended, err := p.State()
				ok := false
				for _, m := range msgs[len(before):] {
					i, b, d, is := m.Piece()
					ok = ok || is && int(i) == ownedPiece && b == 0 && bytes.Equal(d, want)
				}
				if !ok {
					w.Fail("not-served", "peer %d is not served any more (ended: %v, %v)", p.Name, ended, err)
				}
				t.Event("served after an ending", 1)
			}
		}
		if !t.Failed() && r.IntN(3) == 0 {
			unreadable(t, w)
		}
		w.End()
		if s := left(); s != "" {
			w.Fail("goroutines", "after all peers have gone:\n%s", s)
		}
	})
	t.Key(tor.Raw, fmt.Sprint(w.Log))
	t.Sample("%s: %.300v", tor.Describe(), w.Log)
}

// stuck says whether the peer of a connection got a handshake (and does not
// read the rest).
func stuck(s *env.Session) bool {
	sh, _, _, ended, _ := s.State()
	return len(sh) > 0 || !ended
}

// unreadable: a file is cut, and its pieces are requested.
func unreadable(t *mon.T, w *world.World) {
	for f := range w.Tor.Files {
		os.Truncate(w.Tor.LocalPath(w.C.Dir, f), 0)
	}
	for _, p := range connected(w) {
		i := t.Rng.Uint32N(uint32(w.Tor.NumPieces()))
		w.Note("files cut, peer %d requests piece %d;", p.Name, i)
		p.C.Write(env.Request(i, 0, uint32(len(w.Tor.Piece(int64(i))))).Bytes())
	}
	time.Sleep(time.Second)
	synctest.Wait()
	for _, p := range connected(w) {
		if _, _, _, ended, _ := p.State(); ended && !(p.IsDone() && p.End.Closed()) {
			w.Fail("not-ended", "peer %d was disconnected since a piece could not be read; the handler has returned: %v", p.Name, p.IsDone())
		}
	}
}

func connected(w *world.World) (on []*world.Who) {
	for _, p := range w.Peers {
		if p.Connected {
			if p.IsDone() && p.Stray {
				p.Connected = false
				continue
			}
			on = append(on, p)
		}
	}
	return on
}

// left returns the goroutines of the client.
func left() string {
	var s string
	for try := 0; try < 3; try++ {
		b := make([]byte, 1<<20)
		b = b[:runtime.Stack(b, true)]
		s = ""
		for _, g := range strings.Split(string(b), "\n\n") {
			if strings.Contains(g, "gotor/swarm.") || strings.Contains(g, "gotor/io.") {
				s += g + "\n\n"
			}
		}
		if s == "" {
			return ""
		}
		synctest.Wait()
	}
	return s
}
