package main

import (
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"sync/atomic"
	"time"

	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

// sequence: connections that come and go, a few at a time, over large pieces.
// What each of them needed must be given back.
func sequence(t *mon.T, i int) {
	r := t.Rng
	s := start(t, 1<<20, 6, 2, 0, 0)
	if s == nil {
		return
	}
	var left atomic.Int64
	left.Store(800)
	var wg sync.WaitGroup
	for w := 0; w < 6; w++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 4))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for left.Add(-1) >= 0 {
				if err := s.Serve(rr, 1, time.Minute); err != nil {
					s.fail("not-served", "connections one after another: %v", err)
					return
				}
			}
		}()
	}
	wg.Wait()
	t.Event("connections in a row", 800)
	s.finish(300)
}

// growth measures what the client keeps (in this process, after a garbage
// collection) per connection that ended and per message of a connection that
// goes on.
func growth(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 500 + r.Int64N(1000), MaxFiles: 3, MaxLen: 60000, MinTotal: 20000})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = r.IntN(2) == 0
	}
	c := env.Seed(t, tor, owned)
	if c == nil {
		return
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	var handlers sync.WaitGroup
	dial := func() net.Conn {
		k, err := net.Dial("tcp", ln.Addr().String())
		if err != nil {
			panic(err)
		}
		in, err := ln.Accept()
		if err != nil {
			panic(err)
		}
		handlers.Add(1)
		go func() {
			defer handlers.Done()
			ph, err := swarm.FromIncoming(in, c.Swarm)
			if err != nil {
				in.Close()
				return
			}
			ph.Loop()
		}()
		k.SetDeadline(time.Now().Add(5 * time.Minute))
		return k
	}
	// meet reads the handshake and the bitfield.
	meet := func(k net.Conn, id int) bool {
		k.Write(env.Handshake(tor.Infohash, env.PeerID(id)))
		if _, err := io.ReadFull(k, make([]byte, 68)); err != nil {
			t.Failf("not-served", "no handshake: %v", err)
			return false
		}
		if _, err := env.ReadMsg(k); err != nil {
			t.Failf("not-served", "no bitfield: %v", err)
			return false
		}
		return true
	}
	some := func() []byte {
		b := make([]bool, len(owned))
		for k := range b {
			b[k] = r.IntN(2) == 0
		}
		return env.Bits(b)
	}
	id := 0
	quiet := 0
	visitors := func(n int) {
		began := time.Now()
		for ; n > 0 && !t.Failed(); n-- {
			k := dial()
			id++
			switch r.IntN(6) {
			case 0: // wrong
				hs := env.Handshake(tor.Infohash, env.PeerID(id))
				hs[28+r.IntN(20)] ^= 4
				k.Write(hs)
			case 1:
				k.Write(env.Handshake(tor.Infohash, env.PeerID(id))[:r.IntN(68)])
			default:
				if meet(k, id) {
					k.Write(env.Msg{Type: 5, Payload: some()}.Bytes())
					k.Write(env.Msg{Type: r.IntN(4)}.Bytes())
				}
			}
			if r.IntN(3) == 0 {
				k.(*net.TCPConn).SetLinger(0)
			}
			k.Close()
			if n%5 == 0 { // not many at a time
				for runtime.NumGoroutine() > quiet {
					time.Sleep(100 * time.Microsecond)
					if time.Since(began) > 2*time.Minute {
						t.Failf("goroutines", "%d goroutines are there, %d before", runtime.NumGoroutine(), quiet)
						return
					}
				}
			}
		}
	}
	// measure waits until the visitors are gone.
	measure := func(base int) (int64, int) {
		g := 0
		for k := 0; k < 200; k++ {
			if g = runtime.NumGoroutine(); base == 0 && k > 40 || base > 0 && g <= base {
				break
			}
			time.Sleep(50 * time.Millisecond)
		}
		runtime.GC()
		runtime.GC()
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc), g
	}
	long := dial()
	if !meet(long, 999999) {
		return
	}
	// What it is sent: blocks, and what is requested from it
	pong := make(chan struct{}, 1)
	read := make(chan struct{})
	last := tor.Total() - (tor.NumPieces()-1)*tor.PieceLen
	mark := -1
	for p, o := range owned {
		if o && int64(p) < tor.NumPieces()-1 || o && last > 3 {
			mark = p
		}
	}
	go func() {
		defer close(read)
		for {
			m, err := env.ReadMsg(long)
			if err != nil {
				return
			}
			if p, b, d, ok := m.Piece(); ok && int(p) == mark && b == 1 && len(d) == 2 {
				pong <- struct{}{}
			}
		}
	}()
	messages := func(n int) {
		for n > 0 && !t.Failed() {
			var b []byte
			for k := 0; k < 200; k++ {
				n--
				p := uint32(r.IntN(len(owned)))
				if len(tor.Piece(int64(p))) < 200 {
					p = 0
				}
				switch r.IntN(12) {
				case 0:
					b = append(b, env.Msg{Type: -1}.Bytes()...)
				case 1, 2:
					b = append(b, env.Msg{Type: r.IntN(4)}.Bytes()...)
				case 3, 4:
					b = append(b, env.Msg{Type: 4, Payload: []byte{0, 0, byte(p >> 8), byte(p)}}.Bytes()...)
				case 5:
					b = append(b, env.Msg{Type: 5, Payload: some()}.Bytes()...)
				case 6, 7:
					b = append(b, env.Request(p, uint32(r.IntN(100)), uint32(1+r.IntN(100))).Bytes()...)
				case 8:
					m := env.Request(p, uint32(r.IntN(100)), uint32(1+r.IntN(100)))
					m.Type = 8
					b = append(b, m.Bytes()...)
				case 9:
					b = append(b, env.Msg{Type: 9 + r.IntN(200), Payload: make([]byte, r.IntN(30))}.Bytes()...)
				default: // a block
					d := make([]byte, 8+r.IntN(60))
					d[3] = byte(p)
					b = append(b, env.Msg{Type: 7, Payload: d}.Bytes()...)
				}
			}
			if _, err := long.Write(b); err != nil {
				t.Failf("not-served", "the connection that goes on has ended: %v", err)
			}
		}
		if mark < 0 || t.Failed() {
			time.Sleep(500 * time.Millisecond)
			return
		}
		// All of it is handled when the last request is answered
		long.Write(env.Request(uint32(mark), 1, 2).Bytes())
		select {
		case <-pong:
		case <-read:
			t.Failf("not-served", "the connection that goes on has ended")
		case <-time.After(2 * time.Minute):
			t.Failf("not-served", "a peer that sent many messages waits for a block")
		}
	}
	var heap int64
	var gs int
	_, quiet = measure(0)
	if i%2 == 0 {
		visitors(300)
		heap, gs = measure(0)
		visitors(1200)
	} else {
		messages(4000)
		heap, gs = measure(0)
		messages(60000)
	}
	if t.Failed() {
		return
	}
	now, g := measure(gs)
	grown := now - heap
	t.Key(tor.Raw, i)
	t.Sample("%s: visitors %v: the heap grows from %d by %d bytes, goroutines from %d to %d", tor.Describe(), i%2 == 0, heap, grown, gs, g)
	what := "1200 connections that ended"
	if i%2 != 0 {
		what = "60000 messages"
	}
	if grown > 300_000 {
		t.Failf("memory", "%s: the client keeps %d bytes more", what, grown)
	}
	if g > gs+3 {
		t.Failf("goroutines", "%s: %d goroutines before, %d after", what, gs, g)
	}
	t.Event("growth measured", 1)
	if i%2 == 0 {
		t.Event("connections in a row", 1200)
	} else {
		t.Event("messages in a row", 60000)
	}
	long.Close()
	<-read
	done := make(chan struct{})
	go func() { handlers.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		t.Failf("goroutines", "handlers go on though all peers are gone")
	}
}
