// C17: only peers of the same torrent are let in.
package main

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"sort"
	"testing"
	"testing/synctest"
	"time"

	"gotor/peer"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C17",
		Rule: "Incoming connections (in fake time) and outgoing ones (over loopback sockets) whose peer sends a right handshake (any reserved bits, any ID) or a wrong one: any byte of the length, the protocol or the " +
			"infohash changed, other infohashes, from IPv4 and IPv6 addresses, their own or shared ones, peers that were there before, hundreds of them one after another, cut at any place, shifted, followed by more, sent in pieces, too late, or nothing. Observed: every byte that the client sends before and after, and whether it closes. " +
			"A right handshake leads to the client's handshake, for incoming peers then its exact bitfield, and to a session that answers a request; a wrong one to a closed connection on which nothing but " +
			"(if the client opened it) its handshake was sent. Right handshakes also come in up to 70 parts over nearly a second, or over more. Distinct by the bytes sent.",
		Assumptions: []string{"the remote address of a connection is a TCP address"},
		Scenarios: []mon.Scenario{
			{Name: "incoming", Quick: 1600, Thorough: 30000, Shards: 6, Nobody: true, Sync: true, Run: incoming},
			{Name: "timeout", Quick: 400, Thorough: 5000, Shards: 2, Nobody: true, Sync: true, Run: timeout},
			{Name: "slow", Quick: 600, Thorough: 8000, Shards: 2, Nobody: true, Sync: true, Run: slow},
			{Name: "outgoing", Quick: 240, Thorough: 3000, Shards: 6, Nobody: true, Run: outgoing},
		},
		Require: map[string]int{"let in": 300, "pieces completed meanwhile": 100, "come again": 200, "turned away": 800, "answered a request": 300, "outgoing let in": 20, "outgoing turned away": 50, "timed out": 300, "slow, but in time": 100, "too slow": 100},
	})
}

func client(t *mon.T) (*env.Client, []bool) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a"})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = r.IntN(3) > 0
	}
	switch r.IntN(6) {
	case 0: // nothing
		clear(owned)
	case 1: // all
		for k := range owned {
			owned[k] = true
		}
	default:
		owned[r.IntN(len(owned))] = true
	}
	return env.Seed(t, tor, owned), owned
}

// shake makes a handshake. An empty reason means that it is right.
func shake(t *mon.T, tor *ref.Tor) (hs []byte, why string) {
	r := t.Rng
	id := env.PeerID(r.IntN(1000))
	if r.IntN(4) == 0 {
		id = string(ref.Str(r, 20))
	} else if r.IntN(3) == 0 { // of some client, the same one among them
		id = []string{"-GT0000-", "-UT3550-", "-TR2940-", "-qB4500-", "-GT0001-", "M7-9-2--", "\x00\x00\x00\x00\x00\x00\x00\x00"}[r.IntN(7)] + string(ref.Str(r, 12))
	}
	hs = env.Handshake(tor.Infohash, id)
	if r.IntN(2) == 0 { // extensions
		for k := 20; k < 28; k++ {
			hs[k] = byte(r.Uint32())
		}
	}
	switch r.IntN(12) {
	case 0:
		k := r.IntN(20)
		hs[k] ^= 1 << r.IntN(8)
		why = fmt.Sprintf("byte %d of the protocol changed", k)
	case 1, 2:
		k := 28 + r.IntN(20)
		hs[k] ^= 1 << r.IntN(8)
		why = fmt.Sprintf("byte %d, of the infohash, changed", k)
	case 3:
		for k := 28; k < 48; k++ {
			hs[k] = byte(r.Uint32())
		}
		why = "another infohash"
	case 4:
		copy(hs[28:48], make([]byte, 20))
		why = "the infohash is zero"
	case 5:
		hs[0] = []byte{0, 18, 20, 255}[r.IntN(4)]
		why = fmt.Sprintf("length %d", hs[0])
	case 6:
		hs = append([]byte{0}, hs[:67]...)
		why = "shifted"
	case 7:
		copy(hs[1:20], "Bittorrent protocol")
		why = "wrong case"
	case 8:
		// infohash where the ID belongs, and the other way round
		copy(hs[28:48], id)
		copy(hs[48:68], tor.Infohash)
		why = "ID and infohash swapped"
	}
	if why != "" && bytes.Equal(hs[28:48], []byte(tor.Infohash)) && string(hs[:20]) == "\x13BitTorrent protocol" {
		why = ""
	}
	return
}

func random(t *mon.T, n int) []int {
	var at []int
	for e := 0; e < n; {
		e += 1 + t.Rng.IntN(30)
		at = append(at, e)
	}
	return at
}

func incoming(t *mon.T, i int) {
	r := t.Rng
	c, owned := client(t)
	if c == nil {
		return
	}
	n := 4
	if i%40 == 0 {
		n = 200
	}
	base := 2000 + r.IntN(6)
	var last []byte // a peer that was let in before
	for k := 0; k < n; k++ {
		hs, why := shake(t, c.Tor)
		if last != nil && r.IntN(2) == 0 {
			hs, why = bytes.Clone(last), ""
			t.Event("come again", 1)
		}
		if why == "" {
			last = hs
		}
		if p := int64(r.IntN(len(owned))); !owned[p] && r.IntN(2) == 0 { // a piece is completed
			if _, err := c.Fileio.WritePiece(p, c.Tor.Piece(p)); err != nil {
				t.Failf("error", "writing piece %d: %v", p, err)
				return
			}
			c.Bf.Set(p, true)
			owned[p] = true
			t.Event("pieces completed meanwhile", 1)
		}
		port := base + k
		if r.IntN(4) == 0 {
			port = base // of the same address as one before
		}
		at := random(t, 68)
		if r.IntN(2) == 0 {
			at = nil
		}
		t.Key(hs, fmt.Sprint(at))
		t.Sample("%x, cut at %v: %s", hs, at, why)
		synctest.Test(t.TT, func(_ *testing.T) {
			s := env.Connect(c, port)
			synctest.Wait()
			if sh, m, _, ended, _ := s.State(); len(sh) > 0 || len(m) > 0 || ended {
				t.Failf("early", "the client sent something before the handshake of an incoming peer, or closed")
			}
			env.Send(s.C, hs, at...)
			synctest.Wait()
			judge(t, c, owned, s, why, hs)
			s.Finish()
			synctest.Wait()
		})
		if t.Failed() {
			return
		}
	}
}

func judge(t *mon.T, c *env.Client, owned []bool, s *env.Session, why string, hs []byte) {
	sh, msgs, _, ended, err := s.State()
	ph, herr := s.Handler()
	if why != "" {
		if len(sh) > 0 || len(msgs) > 0 {
			t.Failf("let-in", "handshake with %s (%x): the client answered", why, hs)
		}
		if !ended || !s.End.Closed() {
			t.Failf("not-closed", "handshake with %s (%x): the connection is still open", why, hs)
		}
		if herr == nil && ph != nil {
			t.Failf("let-in", "handshake with %s (%x): accepted", why, hs)
		}
		t.Event("turned away", 1)
		return
	}
	if ended || herr != nil {
		t.Failf("turned-away", "right handshake %x: the connection was ended (%v, %v)", hs, err, herr)
		return
	}
	answer(t, c, sh)
	if len(msgs) == 0 || msgs[0].Type != 5 || !bytes.Equal(msgs[0].Payload, env.Bits(owned)) {
		t.Failf("bitfield", "the first message to an incoming peer is not the bitfield %x: %v", env.Bits(owned), msgs)
		return
	}
	t.Event("let in", 1)
	works(t, c, owned, s.C, func(ok func(m env.Msg) bool) bool {
		synctest.Wait()
		_, msgs, _, _, _ := s.State()
		for _, m := range msgs {
			if ok(m) {
				return true
			}
		}
		return false
	})
}

// answer checks the handshake that the client sends.
func answer(t *mon.T, c *env.Client, sh []byte) {
	want := env.Handshake(c.Tor.Infohash, c.Id)
	if len(sh) != 68 || !bytes.Equal(sh[:48], want[:48]) || len(c.Id) != 20 || !bytes.Equal(sh[48:], want[48:]) {
		t.Failf("handshake", "the client's handshake is %x instead of %x", sh, want)
	}
}

// works sends a request for a piece that the client owns, and expects it.
func works(t *mon.T, c *env.Client, owned []bool, conn net.Conn, see func(func(env.Msg) bool) bool) {
	for p := int64(0); p < c.Tor.NumPieces(); p++ {
		if !owned[p] {
			continue
		}
		want := c.Tor.Piece(p)
		conn.Write(env.Request(uint32(p), 0, uint32(len(want))).Bytes())
		if !see(func(m env.Msg) bool {
			i, b, d, ok := m.Piece()
			return ok && int64(i) == p && b == 0 && bytes.Equal(d, want)
		}) {
			t.Failf("session", "a peer with a right handshake does not get piece %d", p)
			return
		}
		t.Event("answered a request", 1)
		return
	}
}

// timeout: the handshake is cut, and then nothing comes, or comes too late.
func timeout(t *mon.T, i int) {
	r := t.Rng
	c, _ := client(t)
	if c == nil {
		return
	}
	hs, why := shake(t, c.Tor)
	n := r.IntN(68)
	late := r.IntN(2) == 0
	hang := r.IntN(4) == 0
	t.Key(hs[:n], late, hang)
	t.Sample("%d bytes of a handshake (%s), rest comes late: %v, hangs up: %v", n, why, late, hang)
	synctest.Test(t.TT, func(_ *testing.T) {
		s := env.Connect(c, 3000)
		for _, b := range hs[:n] {
			s.C.Write([]byte{b})
			if r.IntN(10) == 0 {
				time.Sleep(time.Millisecond)
			}
		}
		if hang {
			s.C.Close()
			synctest.Wait()
		} else {
			time.Sleep(3 * time.Second)
			synctest.Wait()
			if late {
				s.C.Write(hs[n:])
				synctest.Wait()
			}
		}
		sh, msgs, _, _, _ := s.State()
		if len(sh) > 0 || len(msgs) > 0 {
			t.Failf("let-in", "%d bytes of a handshake, and the client answered", n)
		}
		if !s.IsDone() || !s.End.Closed() {
			t.Failf("not-closed", "%d bytes of a handshake, and after 3 seconds the connection is still open", n)
			s.End.Close()
		}
		if ph, err := s.Handler(); s.IsDone() && (err == nil || ph != nil) {
			t.Failf("let-in", "%d bytes of a handshake were accepted", n)
		}
		t.Event("timed out", 1)
		s.Finish()
	})
}

// slow: a right handshake that comes in parts, in time or too late.
func slow(t *mon.T, i int) {
	r := t.Rng
	c, _ := client(t)
	if c == nil {
		return
	}
	hs, why := shake(t, c.Tor)
	for why != "" || len(hs) != 68 {
		hs, why = shake(t, c.Tor)
	}
	intime := r.IntN(2) == 0
	total := time.Duration(r.Int64N(int64(970 * time.Millisecond)))
	if !intime {
		total = 1030*time.Millisecond + time.Duration(r.Int64N(int64(2*time.Second)))
	}
	// The last byte is sent after that time
	cuts := []int{68}
	for k := r.IntN(70); k > 0; k-- {
		cuts = append(cuts, 1+r.IntN(67))
	}
	sort.Ints(cuts)
	t.Key(hs, cuts, total)
	t.Sample("a handshake in %d parts, within %v", len(cuts), total)
	synctest.Test(t.TT, func(_ *testing.T) {
		s := env.Connect(c, 3000)
		defer s.Finish()
		at := 0
		for k, n := range cuts {
			d := total / time.Duration(len(cuts))
			if k == 0 {
				d = total - d*time.Duration(len(cuts)-1)
			}
			time.Sleep(d)
			if _, err := s.C.Write(hs[at:n]); err != nil && intime {
				t.Failf("turned-away", "a right handshake in %d parts within %v: after %d bytes, %v", len(cuts), total, at, err)
				return
			}
			at = n
		}
		synctest.Wait()
		sh, msgs, _, ended, _ := s.State()
		if !intime {
			if len(sh) > 0 || len(msgs) > 0 || !s.IsDone() || !s.End.Closed() {
				t.Failf("let-in", "a handshake that took %v, in %d parts: answered with %d bytes and %d messages, connection closed: %v", total, len(cuts), len(sh), len(msgs), s.End.Closed())
			}
			t.Event("too slow", 1)
			return
		}
		if ended || len(msgs) == 0 {
			t.Failf("turned-away", "a right handshake in %d parts within %v: the connection ended: %v, %d messages", len(cuts), total, ended, len(msgs))
			return
		}
		answer(t, c, sh)
		t.Event("slow, but in time", 1)
	})
}

func outgoing(t *mon.T, i int) {
	r := t.Rng
	c, owned := client(t)
	if c == nil {
		return
	}
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if r.IntN(3) == 0 {
		if l6, e6 := net.Listen("tcp", "[::1]:0"); e6 == nil {
			ln.Close()
			ln = l6
			t.Event("outgoing over IPv6", 1)
		}
	}
	if err != nil {
		panic(err)
	}
	defer ln.Close()
	addr := ln.Addr().(*net.TCPAddr)
	info := peer.MakePeer("", addr.IP, uint16(addr.Port))

	hs, why := shake(t, c.Tor)
	for r.IntN(2) == 0 && why != "" {
		hs, why = shake(t, c.Tor)
	}
	mode := "answers"
	switch r.IntN(8) {
	case 0:
		mode = "is silent"
		hs, why = hs[:r.IntN(68)], "a cut handshake"
	case 1:
		mode = "hangs up"
		hs, why = hs[:r.IntN(68)], "a cut handshake"
	case 2:
		mode = "is not there"
	}
	t.Key(hs, mode)
	t.Sample("the peer %s: %x, %s", mode, hs, why)
	type res struct {
		ph  *swarm.PeerHandler
		err error
	}
	done := make(chan res, 1)
	if mode == "is not there" {
		ln.Close()
	}
	began := time.Now()
	go func() {
		ph, err := swarm.FromBootstrap(info, c.Swarm)
		done <- res{ph, err}
	}()
	get := func() (res, bool) {
		select {
		case x := <-done:
			return x, true
		case <-time.After(30 * time.Second):
			t.Failf("hangs", "the peer %s (%s): after 30 s the client still waits", mode, why)
			return res{}, false
		}
	}
	if mode == "is not there" {
		if x, ok := get(); ok && (x.err == nil || x.ph != nil) {
			t.Failf("let-in", "there is no peer, but a handler")
		}
		t.Event("outgoing turned away", 1)
		return
	}
	conn, err := ln.Accept()
	if err != nil {
		panic(err)
	}
	defer conn.Close()
	conn.SetDeadline(time.Now().Add(60 * time.Second))
	sh := make([]byte, 68)
	if _, err := io.ReadFull(conn, sh); err != nil {
		t.Failf("handshake", "the client does not send its handshake: %v", err)
		return
	}
	answer(t, c, sh)
	if mode == "answers" && why == "" && r.IntN(3) == 0 {
		time.Sleep(time.Duration(200+r.IntN(400)) * time.Millisecond)
		t.Event("outgoing, slow", 1)
	}
	env.Send(conn, hs, random(t, len(hs))...)
	follow := mode == "answers" && r.IntN(2) == 0
	if follow {
		conn.Write(env.Msg{Type: -1}.Bytes()) // messages follow at once
	}
	if mode == "hangs up" {
		conn.(*net.TCPConn).CloseWrite()
	}
	x, ok := get()
	if !ok {
		return
	}
	if mode != "answers" || why != "" {
		if x.err == nil || x.ph != nil {
			t.Failf("let-in", "the peer %s with a handshake with %s (%x), and is let in", mode, why, hs)
			return
		}
		if d := time.Since(began); d > 20*time.Second {
			t.Failf("hangs", "it took %v to turn the peer away", d)
		}
		b, err := io.ReadAll(conn)
		if env.IsTimeout(err) {
			t.Failf("not-closed", "the peer %s with a handshake with %s (%x), and the connection stays open", mode, why, hs)
		} else if len(b) > 0 {
			t.Failf("let-in", "the peer %s with a handshake with %s (%x), and was sent %x", mode, why, hs, b)
		}
		t.Event("outgoing turned away", 1)
		return
	}
	if x.err != nil {
		// (the machine may have been too slow for the second that a peer has)
		if time.Since(began) > 800*time.Millisecond {
			return
		}
		t.Failf("turned-away", "the peer answers with a right handshake %x, and is turned away: %v", hs, x.err)
		return
	}
	t.Event("outgoing let in", 1)
	loop := make(chan struct{})
	go func() { x.ph.Loop(); close(loop) }()
	works(t, c, owned, conn, func(ok func(env.Msg) bool) bool {
		for {
			m, err := env.ReadMsg(conn)
			if err != nil {
				return false
			}
			if ok(m) {
				return true
			}
		}
	})
	conn.Close()
	select {
	case <-loop:
	case <-time.After(30 * time.Second):
		t.Failf("hangs", "the client goes on with a peer that is gone")
	}
}
