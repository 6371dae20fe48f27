// C21: download requests tile the wanted pieces.
package main

import (
	"fmt"
	"io"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
	"verifharness/world"
)

func main() {
	mon.Main(mon.Check{
		ID: "C21",
		Rule: "Clients that own a random part of a random torrent, and histories of one to eight peers, or crowds of up to 80, that connect, announce sets of up to hundreds of pieces (none, all, only owned ones, runs, single ones, with stray bits, more of them later), and " +
			"leave. Online monitor over the requests that each peer receives: the piece exists, is missing here and was announced by that peer; the requests for a piece tile it; no block is longer than 16 KiB; at most five pieces " +
			"per peer; no piece of a connected peer is requested from another one; and when nothing happens any more, no peer that could be asked is left out. Pieces of up to 16 MiB. In fake time under the race detector; " +
			"outgoing connections over sockets. Distinct by torrent and history.",
		Assumptions: []string{"peers announce with a bitfield", "no piece completes (the client does not yet store what it receives)"},
		Scenarios: []mon.Scenario{
			{Name: "histories", Quick: 1600, Thorough: 30000, Shards: 6, Nobody: true, Sync: true, Run: histories},
			{Name: "tiles", Quick: 160, Thorough: 2500, Shards: 4, Nobody: true, Sync: true, Run: tiles},
			{Name: "outgoing", Quick: 48, Thorough: 480, Shards: 8, Nobody: true, Run: outgoing},
		},
		Require: map[string]int{"pieces requested": 2000, "requests": 5000, "last pieces requested": 200, "requested again after a peer left": 200, "peers with five": 200, "quiet states": 1000, "crowds": 20},
	})
}

func histories(t *mon.T, i int) {
	r := t.Rng
	pl := 1 + r.Int64N(200)
	if r.IntN(4) == 0 {
		pl = 16384 + r.Int64N(3) - 1
	}
	np := 1 + r.Int64N(40)
	if r.IntN(5) == 0 {
		pl, np = 1+r.Int64N(4), 60+r.Int64N(500)
	}
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 3, MaxLen: pl * np, MinTotal: pl})
	w := world.Start(t, tor)
	if w == nil {
		return
	}
	most, steps := 8, 5+r.IntN(25)
	if i%25 == 0 { // a crowd
		most = 20 + r.IntN(60)
		steps = 3*most + r.IntN(100)
		t.Event("crowds", 1)
	}
	synctest.Test(t.TT, func(_ *testing.T) {
		for k := steps; k >= 0 && !t.Failed(); k-- {
			var on []*world.Who
			for _, p := range w.Peers {
				if p.Connected {
					on = append(on, p)
				}
			}
			switch x := r.IntN(8); {
			case x < 3 && len(on) < most || len(on) == 0:
				p := w.Connect()
				if r.IntN(5) > 0 {
					w.Announce(r, p)
				}
			case x < 4:
				w.Announce(r, on[r.IntN(len(on))])
			case x < 6 && (most == 8 || r.IntN(6) == 0):
				w.Leave(on[r.IntN(len(on))])
			case x == 6:
				d := time.Duration(r.IntN(300)) * time.Millisecond
				w.Note("%v passes;", d)
				time.Sleep(d)
			}
			if r.IntN(4) == 0 {
				w.Note("quiet;")
				time.Sleep(time.Second)
				synctest.Wait()
				w.Quiet()
			} else if r.IntN(2) == 0 {
				synctest.Wait()
				w.TakeAll()
			}
		}
		time.Sleep(time.Second)
		synctest.Wait()
		w.Quiet()
		w.End()
	})
	t.Key(tor.Raw, fmt.Sprint(w.Log))
	t.Sample("%s: %.300v", tor.Describe(), w.Log)
}

// tiles: pieces of many blocks.
func tiles(t *mon.T, i int) {
	r := t.Rng
	pl := 16384*(1+r.Int64N(20)) + []int64{-1, 0, 1, r.Int64N(16384)}[r.IntN(4)]
	most := pl * 4
	if r.IntN(8) == 0 { // as large as they get
		pl = 1<<20*(1+r.Int64N(16)) + r.Int64N(3) - 1
		most = pl * 2
		t.Event("huge pieces", 1)
	}
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 2, MaxLen: most, MinTotal: 1})
	w := world.Start(t, tor)
	if w == nil {
		return
	}
	synctest.Test(t.TT, func(_ *testing.T) {
		for k := 1 + r.IntN(3); k > 0; k-- {
			w.Announce(r, w.Connect())
		}
		time.Sleep(time.Second)
		synctest.Wait()
		w.Quiet()
		w.End()
	})
	t.Key(tor.Raw, fmt.Sprint(w.Log))
	t.Sample("%s: %.300v", tor.Describe(), w.Log)
}

// outgoing: the client connects to the peer, possibly more than once, because
// a tracker may name a peer twice. Each connection counts as a peer.
func outgoing(t *mon.T, i int) {
	r := t.Rng
	pl := []int64{1 + r.Int64N(100), 16384*(1+r.Int64N(4)) + r.Int64N(3) - 1}[r.IntN(2)]
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 2, MaxLen: pl * 9, MinTotal: 1})
	w := world.Start(t, tor)
	if w == nil {
		return
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	addr := ln.Addr().(*net.TCPAddr)
	var dones []chan struct{}
	var conns []net.Conn
	dial := func() bool {
		var ph *swarm.PeerHandler
		started := make(chan error, 1)
		go func() {
			var err error
			ph, err = swarm.FromBootstrap(peer.MakePeer("", addr.IP, uint16(addr.Port)), w.C.Swarm)
			started <- err
		}()
		conn, err := ln.Accept()
		if err != nil {
			panic(err)
		}
		io.ReadFull(conn, make([]byte, 68))
		conn.Write(env.Handshake(tor.Infohash, env.PeerID(1)))
		if err := <-started; err != nil {
			conn.Close()
			return false // (too slow)
		}
		done := make(chan struct{})
		go func() { ph.Loop(); close(done) }()
		p := &world.Who{Name: len(w.Peers), Announced: make([]bool, tor.NumPieces()), Connected: true, Blocks: map[uint32][]world.Block{}}
		p.Session = &env.Session{Remote: env.NewRemote(conn, false)}
		w.Note("connection %d to the peer;", p.Name)
		w.Peers = append(w.Peers, p)
		dones = append(dones, done)
		conns = append(conns, conn)
		return true
	}
	settle := func() {
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end) && !w.Settled() && !t.Failed(); {
			time.Sleep(20 * time.Millisecond)
		}
		time.Sleep(150 * time.Millisecond)
		w.Quiet()
	}
	leave := func(k int) bool {
		w.TakeAll()
		w.Note("connection %d ends;", k)
		w.Peers[k].Connected = false
		for _, i := range w.Peers[k].Order {
			w.Left[i] = true
		}
		conns[k].Close()
		select {
		case <-dones[k]:
			return true
		case <-time.After(30 * time.Second):
			w.Fail("hangs", "the client goes on with a peer that is gone")
			return false
		}
	}
	n := 1 + r.IntN(3)
	for k := 0; k < n; k++ {
		if !dial() {
			n = k
			break
		}
		w.Announce(r, w.Peers[k])
	}
	settle()
	for _, k := range r.Perm(n) {
		if !leave(k) {
			break
		}
		if !t.Failed() {
			if n > 1 {
				t.Event("one of several connections to a peer ends", 1)
			}
			settle()
		}
	}
	for _, c := range conns {
		c.Close()
	}
	t.Key(tor.Raw, fmt.Sprint(w.Log))
}
