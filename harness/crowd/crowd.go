// Package crowd is a crowd of peers, honest and hostile, around the program.
package crowd

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"verifharness/env"
	"verifharness/ref"
)

// Crowd knows the program's torrent and port.
type Crowd struct {
	Tor   *ref.Tor
	Owned []bool
	Port  int

	id       atomic.Int64
	Attacks  [NKinds]atomic.Int64
	Honest   atomic.Int64 // honest peers that were served
	Blocks   atomic.Int64 // blocks they received, all right
	Requests atomic.Int64 // requests received from the program
	Refused  atomic.Int64 // connections that could not be made
}

func (c *Crowd) dial() (*net.TCPConn, error) {
	d := net.Dialer{Timeout: 20 * time.Second}
	k, err := d.Dial("tcp", fmt.Sprintf("127.0.0.1:%d", c.Port))
	if err != nil {
		c.Refused.Add(1)
		return nil, err
	}
	return k.(*net.TCPConn), nil
}

// PeerID is a new ID.
func (c *Crowd) PeerID() string { return env.PeerID(int(c.id.Add(1))) }

// Serve lets an honest peer request n blocks. It returns what is wrong.
func (c *Crowd) Serve(r *rand.Rand, n int, patience time.Duration) error {
	k, err := c.dial()
	if err != nil {
		return fmt.Errorf("an honest peer cannot connect: %w", err)
	}
	defer k.Close()
	k.SetDeadline(time.Now().Add(patience))
	if _, err := k.Write(env.Handshake(c.Tor.Infohash, c.PeerID())); err != nil {
		return fmt.Errorf("an honest peer cannot send its handshake: %w", err)
	}
	b := make([]byte, 68)
	if m, err := io.ReadFull(k, b); err != nil {
		return fmt.Errorf("an honest peer gets %d bytes of the handshake, then %w", m, err)
	}
	if string(b[:48]) != string(env.Handshake(c.Tor.Infohash, "")) {
		return fmt.Errorf("an honest peer gets handshake %q", b)
	}
	if m, err := env.ReadMsg(k); err != nil {
		return fmt.Errorf("an honest peer gets no bitfield: %w", err)
	} else if m.Type != 5 || !bytes.Equal(m.Payload, env.Bits(c.Owned)) {
		return fmt.Errorf("an honest peer gets %v instead of the bitfield %x", m, env.Bits(c.Owned))
	}
	var own []int
	for i, o := range c.Owned {
		if o {
			own = append(own, i)
		}
	}
	if r.IntN(2) == 0 { // it has something, too
		k.Write(env.Msg{Type: 5, Payload: env.Bits(c.some(r))}.Bytes())
	}
	for ; n > 0 && len(own) > 0; n-- {
		i := own[r.IntN(len(own))]
		p := c.Tor.Piece(int64(i))
		begin := r.IntN(len(p))
		l := 1 + r.IntN(min(len(p)-begin, 16384))
		if _, err := k.Write(env.Request(uint32(i), uint32(begin), uint32(l)).Bytes()); err != nil {
			return fmt.Errorf("an honest peer cannot send a request: %w", err)
		}
		for {
			m, err := env.ReadMsg(k)
			if err != nil {
				return fmt.Errorf("an honest peer gets no answer to a request: %w", err)
			}
			if m.Type == 6 {
				c.Requests.Add(1)
			}
			if m.Type != 7 {
				continue
			}
			gi, gb, data, _ := m.Piece()
			if int(gi) != i || int(gb) != begin || !bytes.Equal(data, p[begin:begin+l]) {
				return fmt.Errorf("an honest peer that requested %d bytes at %d of piece %d got %d bytes at %d of piece %d: %s", l, begin, i, len(data), gb, gi, ref.DiffBytes(p[begin:begin+l], data))
			}
			c.Blocks.Add(1)
			break
		}
	}
	c.Honest.Add(1)
	return nil
}

func (c *Crowd) some(r *rand.Rand) []bool {
	b := make([]bool, len(c.Owned))
	for i := range b {
		b[i] = r.IntN(2) == 0
	}
	return b
}

// NKinds is the number of kinds of attacks.
const NKinds = 26

// KindName names an attack.
var KindName = [NKinds]string{"garbage at once", "silence", "wrong infohash", "wrong protocol", "cut handshake", "slow handshake", "reset after the handshake", "garbage after the handshake",
	"huge length", "huge length, and data", "bitfields of all sizes", "requests out of range", "pieces nobody asked for", "unknown types", "keepalives", "requests, never reading", "requests, then reset", "half closed",
	"cut message", "handshake twice", "long messages", "announcements, coming and going", "many valid requests", "slow reader", "haves", "close at once"}

func (c *Crowd) swallow(k net.Conn) {
	buf := make([]byte, 65536)
	for {
		if _, err := k.Read(buf); err != nil {
			return
		}
	}
}

// Attack does one thing a hostile peer may do. Connections are kept until
// hold is closed, if that is part of it.
func (c *Crowd) Attack(r *rand.Rand, kind int, hold <-chan struct{}) {
	k, err := c.dial()
	if err != nil {
		return
	}
	defer k.Close()
	k.SetDeadline(time.Now().Add(30 * time.Second))
	over := make(chan struct{})
	defer close(over)
	go func() {
		select {
		case <-hold:
			k.SetDeadline(time.Now())
		case <-over:
		}
	}()
	c.Attacks[kind].Add(1)
	n := uint32(len(c.Owned))
	shake := env.Handshake(c.Tor.Infohash, c.PeerID())
	stay := func() {
		select {
		case <-hold:
		case <-time.After(25 * time.Second):
		}
	}
	rnd := func(n int) []byte { b := make([]byte, n); ref.Fill(r, b); return b }
	anyReq := func() []byte {
		v := func(m uint32) uint32 {
			return []uint32{0, 1, m, m - 1, m + 1, 1 << 31, 1<<32 - 1, 1<<31 - 1, r.Uint32(), r.Uint32N(m + 2)}[r.IntN(10)]
		}
		return env.Request(v(n), v(uint32(c.Tor.PieceLen)), v(uint32(c.Tor.PieceLen))).Bytes()
	}
	validReq := func() []byte {
		i := r.IntN(int(n))
		p := len(c.Tor.Piece(int64(i)))
		b := r.IntN(p)
		return env.Request(uint32(i), uint32(b), uint32(1+r.IntN(min(p-b, 16384)))).Bytes()
	}
	switch kind {
	case 0:
		k.Write(rnd(1 + r.IntN(5000)))
	case 1:
		stay()
	case 2:
		shake[28+r.IntN(20)] ^= 1 << r.IntN(8)
		k.Write(shake)
		c.swallow(k)
	case 3:
		shake[r.IntN(20)] ^= 1 << r.IntN(8)
		k.Write(shake)
		c.swallow(k)
	case 4:
		k.Write(shake[:r.IntN(68)])
		if r.IntN(2) == 0 {
			stay()
		}
	case 5:
		for _, b := range shake {
			if _, err := k.Write([]byte{b}); err != nil {
				return
			}
			time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
		}
	case 6:
		k.Write(shake)
		k.SetLinger(0)
	case 7:
		k.Write(append(shake, rnd(r.IntN(100000))...))
		c.swallow(k)
	case 8:
		k.Write(append(shake, binary.BigEndian.AppendUint32(nil, 1<<32-1-r.Uint32N(9))...))
		c.swallow(k)
	case 9:
		k.Write(append(shake, binary.BigEndian.AppendUint32(nil, 1<<31-1-r.Uint32N(9))...))
		go c.swallow(k)
		b := rnd(1 << 16)
		for i := 0; i < 256; i++ {
			if _, err := k.Write(b); err != nil {
				return
			}
		}
	case 10:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 20; i++ {
			k.Write(env.Msg{Type: 5, Payload: rnd(r.IntN(len(env.Bits(c.Owned)) + 3))}.Bytes())
		}
		k.Write(env.Msg{Type: 5, Payload: rnd(len(env.Bits(c.Owned)))}.Bytes())
		time.Sleep(time.Duration(r.IntN(50)) * time.Millisecond)
	case 11:
		k.Write(append(shake, anyReq()...))
		c.swallow(k)
	case 12:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 20; i++ {
			p := binary.BigEndian.AppendUint32(nil, r.Uint32N(n+2))
			p = binary.BigEndian.AppendUint32(p, r.Uint32N(3)*uint32(r.IntN(1<<20)))
			k.Write(env.Msg{Type: 7, Payload: append(p, rnd(r.IntN(20000))...)}.Bytes())
		}
	case 13:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 50; i++ {
			k.Write(env.Msg{Type: 9 + r.IntN(247), Payload: rnd(r.IntN(200))}.Bytes())
		}
	case 14:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 20; i++ {
			if _, err := k.Write(make([]byte, 4*(1+r.IntN(200)))); err != nil {
				return
			}
		}
	case 15:
		k.Write(shake)
		k.SetReadBuffer(4096)
		for i := 0; i < 3000; i++ {
			if _, err := k.Write(validReq()); err != nil {
				break
			}
		}
		stay()
	case 16:
		k.Write(shake)
		for i := 0; i < 100; i++ {
			k.Write(validReq())
		}
		k.SetLinger(0)
	case 17:
		k.Write(append(shake, validReq()...))
		k.CloseWrite()
		c.swallow(k)
	case 18:
		k.Write(shake)
		m := validReq()
		k.Write(m[:1+r.IntN(len(m)-1)])
		if r.IntN(2) == 0 {
			k.SetLinger(0)
		}
		if r.IntN(2) == 0 {
			go c.swallow(k)
			stay()
		}
	case 19:
		k.Write(append(shake, shake...))
		c.swallow(k)
	case 20:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 5; i++ {
			k.Write(env.Msg{Type: 20, Payload: rnd(r.IntN(130000))}.Bytes())
		}
	case 21:
		go c.swallow(k)
		k.Write(append(shake, env.Msg{Type: 5, Payload: env.Bits(c.some(r))}.Bytes()...))
		time.Sleep(time.Duration(r.IntN(400)) * time.Millisecond)
		if r.IntN(2) == 0 {
			k.Write(env.Msg{Type: 5, Payload: env.Bits(c.some(r))}.Bytes())
			time.Sleep(time.Duration(r.IntN(200)) * time.Millisecond)
		}
	case 22:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 100; i++ {
			if _, err := k.Write(validReq()); err != nil {
				return
			}
		}
	case 23:
		k.Write(shake)
		for i := 0; i < 20; i++ {
			k.Write(validReq())
		}
		b := make([]byte, 1000)
		for i := 0; i < 50; i++ {
			if _, err := k.Read(b); err != nil {
				return
			}
			time.Sleep(5 * time.Millisecond)
		}
	case 24:
		go c.swallow(k)
		k.Write(shake)
		for i := 0; i < 50; i++ {
			k.Write(env.Msg{Type: 4, Payload: binary.BigEndian.AppendUint32(nil, []uint32{0, n - 1, n, 1<<32 - 1, r.Uint32()}[r.IntN(5)])}.Bytes())
			k.Write(env.Msg{Type: r.IntN(4)}.Bytes())
		}
	case 25:
		if r.IntN(2) == 0 {
			k.SetLinger(0)
		}
	}
}

// Listeners are peers that the tracker knows, most of them hostile. They leave
// when hold is closed.
func (c *Crowd) Listeners(r *rand.Rand, n int, hold <-chan struct{}) (compact []byte) {
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		compact = append(compact, 127, 0, 0, 1)
		compact = binary.BigEndian.AppendUint16(compact, uint16(ln.Addr().(*net.TCPAddr).Port))
		rr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		kind := r.IntN(8)
		if kind == 0 {
			ln.Close() // nobody there
			continue
		}
		go func() { <-hold; ln.Close() }()
		go func() {
			k, err := ln.Accept()
			if err != nil {
				return
			}
			defer k.Close()
			go func() { <-hold; k.SetDeadline(time.Now()) }()
			shake := env.Handshake(c.Tor.Infohash, c.PeerID())
			g := make([]byte, rr.IntN(5000))
			ref.Fill(rr, g)
			switch kind {
			case 1: // silence
			case 2:
				k.Write(g)
			case 3:
				shake[28] ^= 1
				k.Write(shake)
			case 4:
				k.Write(append(shake, g...))
			case 5:
				k.Write(shake[:rr.IntN(68)])
				k.Close()
			default:
				k.Write(append(shake, env.Msg{Type: 5, Payload: env.Bits(c.some(rr))}.Bytes()...))
				for j := 0; j < 20; j++ {
					i := rr.IntN(len(c.Owned))
					k.Write(env.Request(uint32(i), 0, 1).Bytes())
				}
			}
			c.swallow(k)
			<-hold
		}()
	}
	return
}

// Silent are n peers that the tracker knows: they let the client connect, and
// say nothing.
func (c *Crowd) Silent(n int, hold <-chan struct{}) (compact []byte) {
	for i := 0; i < n; i++ {
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			continue
		}
		compact = append(compact, 127, 0, 0, 1)
		compact = binary.BigEndian.AppendUint16(compact, uint16(ln.Addr().(*net.TCPAddr).Port))
		go func() { <-hold; ln.Close() }() // the kernel accepts
	}
	return
}

// Rush lets many peers attack for a while. It returns when all have left. hold
// is closed when the time is up.
func (c *Crowd) Rush(r *rand.Rand, peers int, d time.Duration, kinds ...int) {
	hold := make(chan struct{})
	var wg sync.WaitGroup
	end := time.Now().Add(d)
	for i := 0; i < peers; i++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), r.Uint64()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for time.Now().Before(end) {
				kind := rr.IntN(NKinds)
				if len(kinds) > 0 {
					kind = kinds[rr.IntN(len(kinds))]
				}
				c.Attack(rr, kind, hold)
				time.Sleep(time.Duration(rr.IntN(5)) * time.Millisecond)
			}
		}()
	}
	time.Sleep(d)
	close(hold)
	wg.Wait()
}
