// C16: what a peer says does not depend on how the network cuts it.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C16",
		Rule: "A stream of messages (bitfields, requests, keepalives, states, haves, pieces, cancels, messages of unknown types, some of them long) is sent to a running client again and again, each time cut " +
			"differently: all at once, byte by byte, at every message boundary, one byte off each, in the middle of the length, in random pieces, with pauses, with the handshake in the same packet. " +
			"The answers must be the same each time, and the ones the model computes from the messages. In fake time, so that 'no answer' is decided when nothing can happen any more. Distinct by stream and cuts.",
		Assumptions: []string{"a peer does not pause for more than the two minutes after which it counts as gone"},
		Scenarios: []mon.Scenario{
			{Name: "cuts", Quick: 500, Thorough: 8000, Shards: 6, Nobody: true, Sync: true, Run: cuts},
			{Name: "long", Quick: 60, Thorough: 600, Shards: 2, Nobody: true, Sync: true, Run: long},
		},
		Require: map[string]int{"streams sent": 2000, "answers compared": 10000, "reads by the client": 20000},
	})
}

func junk(t *mon.T, tor *ref.Tor) env.Msg {
	r := t.Rng
	switch r.IntN(8) {
	case 0:
		return env.Msg{Type: -1}
	case 1:
		return env.Msg{Type: r.IntN(4)}
	case 2:
		return env.Msg{Type: 4, Payload: binary.BigEndian.AppendUint32(nil, uint32(r.Int64N(tor.NumPieces())))}
	case 3: // what looks like messages inside
		return env.Msg{Type: 9 + r.IntN(240), Payload: append(env.Request(0, 0, 1).Bytes(), env.Request(0, 0, 1).Bytes()[:r.IntN(17)]...)}
	case 4:
		return env.Msg{Type: 20, Payload: bytes.Repeat([]byte{0}, r.IntN(60))}
	case 5:
		return env.Msg{Type: 7, Payload: append(make([]byte, 8), tor.Piece(0)...)}
	case 6:
		return env.Msg{Type: 8, Payload: make([]byte, 12)}
	default:
		return env.Msg{Type: 21, Payload: []byte{6, 0, 0, 0, 13, 6}}
	}
}

func request(t *mon.T, tor *ref.Tor) env.Msg {
	r := t.Rng
	p := r.Int64N(tor.NumPieces())
	n := int64(len(tor.Piece(p)))
	b := r.Int64N(n)
	return env.Request(uint32(p), uint32(b), uint32(1+r.Int64N(n-b)))
}

func cuts(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MinTotal: 8})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = r.IntN(4) > 0
	}
	var msgs []env.Msg
	if r.IntN(3) > 0 {
		have := make([]bool, len(owned))
		for k := range have {
			have[k] = owned[k] && r.IntN(2) == 0 // nothing that the client lacks
		}
		msgs = append(msgs, env.Msg{Type: 5, Payload: env.Bits(have)})
	}
	for k := r.IntN(10); k >= 0; k-- {
		if r.IntN(2) == 0 {
			msgs = append(msgs, junk(t, tor))
		}
		msgs = append(msgs, request(t, tor))
	}
	run(t, tor, owned, msgs, 8)
}

// long has messages around the sizes of the buffers.
func long(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MinTotal: 8, MaxPiece: 5000})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = r.IntN(4) > 0
	}
	var msgs []env.Msg
	for k := 0; k < 4; k++ {
		n := []int{16384, 16379, 16380, 8192, 32768, 65536, 100000, 131067}[r.IntN(8)] - r.IntN(3)
		d := make([]byte, n)
		switch r.IntN(3) {
		case 0:
			for len(d) >= 17 && r.IntN(2) == 0 {
				copy(d[r.IntN(len(d)-16):], env.Request(0, 0, 1).Bytes())
			}
		case 1:
			ref.Fill(r, d)
		}
		msgs = append(msgs, env.Msg{Type: []int{7, 20, 21, 255}[r.IntN(4)], Payload: d})
		for j := r.IntN(4); j >= 0; j-- {
			msgs = append(msgs, request(t, tor))
		}
	}
	run(t, tor, owned, msgs, 4)
}

func run(t *mon.T, tor *ref.Tor, owned []bool, msgs []env.Msg, times int) {
	r := t.Rng
	c := env.Seed(t, tor, owned)
	if c == nil {
		return
	}
	var stream []byte
	var ends []int
	var want []env.Msg
	for _, m := range msgs {
		stream = append(stream, m.Bytes()...)
		ends = append(ends, len(stream))
		if i, b, n, ok := m.Req(); ok && owned[i] {
			p := binary.BigEndian.AppendUint32(nil, i)
			p = binary.BigEndian.AppendUint32(p, b)
			want = append(want, env.Msg{Type: 7, Payload: append(p, tor.Piece(int64(i))[b:b+n]...)})
		}
	}
	t.Sample("%s; %d messages, %d bytes, %d answers", tor.Describe(), len(msgs), len(stream), len(want))
	for k := 0; k < times; k++ {
		var at []int
		how := ""
		pause := false
		switch kind := k % 8; kind {
		case 0:
			how = "all at once"
		case 1:
			how = "at the message boundaries"
			at = append([]int{}, ends...)
		case 2:
			d := []int{-2, -1, 1, 2, 3, 4, 5}[r.IntN(7)]
			how = fmt.Sprintf("%d bytes after the boundaries", d)
			for _, e := range ends {
				at = append(at, e+d)
			}
		case 3:
			n := 1 + r.IntN(6)
			if len(stream) > 20000 {
				n = 1000 + r.IntN(20000)
			}
			how = fmt.Sprintf("every %d bytes", n)
			for e := n; e < len(stream); e += n {
				at = append(at, e)
			}
		default:
			how = "at random"
			pause = kind == 5
			if pause {
				how = "at random, with pauses"
			}
			e := 0
			for e < len(stream) && len(at) < 3000 {
				e += 1 + r.IntN(1+r.IntN(50))*(1+r.IntN(1+len(stream)/2000))
				at = append(at, e)
			}
		}
		t.Key(stream, how, fmt.Sprint(at))
		synctest.Test(t.TT, func(_ *testing.T) {
			s := env.Connect(c, 1000+k)
			hs := env.Handshake(tor.Infohash, env.PeerID(k))
			first := hs
			rest := stream
			if k%3 == 1 {
				// the handshake is followed by messages in the same packet
				n := r.IntN(len(stream))
				first = append(append([]byte{}, hs...), stream[:n]...)
				rest = stream[n:]
				for j := range at {
					at[j] -= n
				}
				how += fmt.Sprintf(", %d bytes with the handshake", n)
			}
			s.C.Write(first)
			if pause {
				last := 0
				for _, e := range append(at, len(rest)) {
					if e > last && e <= len(rest) {
						if err := env.Send(s.C, rest[last:e]); err != nil {
							break
						}
						last = e
						time.Sleep(time.Duration(r.IntN(300)) * time.Millisecond)
					}
				}
			} else {
				env.Send(s.C, rest, at...)
			}
			t.Event("reads by the client", len(at)+1)
			synctest.Wait()
			check(t, tor, s, want, how, msgs)
			s.Finish()
			synctest.Wait()
		})
		t.Event("streams sent", 1)
		if t.Failed() {
			return
		}
	}
}

func check(t *mon.T, tor *ref.Tor, s *env.Session, want []env.Msg, how string, msgs []env.Msg) {
	_, got, _, ended, err := s.State()
	fail := func(f string, a ...any) {
		l := ""
		for _, m := range msgs {
			l += m.String() + "; "
		}
		t.Failf("answers", "cut %s: %s\n%s\nsent: %.1500s", how, fmt.Sprintf(f, a...), tor.Describe(), l)
	}
	if ended {
		_, herr := s.Handler()
		fail("the client ended the connection (%v; %v)", err, herr)
		return
	}
	var pieces []env.Msg
	for _, m := range got {
		if m.Type == 7 {
			pieces = append(pieces, m)
		}
	}
	if len(pieces) != len(want) {
		fail("%d answers instead of %d", len(pieces), len(want))
		return
	}
	for k := range want {
		if !bytes.Equal(pieces[k].Payload, want[k].Payload) {
			fail("answer %d is %v instead of %v", k, pieces[k], want[k])
			return
		}
		t.Event("answers compared", 1)
	}
}
