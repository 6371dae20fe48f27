// C14: decoding what a peer sends never does harm.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"

	"gotor/p2p"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C14",
		Rule: "Byte sequences as a hostile peer may send them: random, sequences of well-formed messages, those cut at every place, with bytes changed, with lengths that are wrong, huge, or wrap around at 32 bits, " +
			"every type with every length from 0 to 40. Observed: no panic, no endless loop, no more bytes reported as read than were given, memory in proportion to the input; what a decoded message says is what its bytes say. " +
			"The input lies between guard bytes and is unchanged afterwards. Distinct by the input.",
		Scenarios: []mon.Scenario{
			{Name: "random", Quick: 32000, Thorough: 320000, Shards: 8, Run: random},
			{Name: "mutated", Quick: 32000, Thorough: 320000, Shards: 8, Run: mutated},
			{Name: "grid", Quick: 256, Thorough: 256, Shards: 4, Run: grid},
			{Name: "large", Quick: 30, Thorough: 300, Shards: 2, Run: large, CPUSec: 20, RSSMB: 1500},
		},
		Require: map[string]int{"decoded": 20000, "refused": 20000, "cut": 10000},
	})
}

// look decodes data and checks what comes out.
func look(t *mon.T, data []byte) {
	// With capacity after the end, where reading too far finds plausible data
	room := make([]byte, len(data)+64)
	copy(room, data)
	for i := len(data); i < len(room); i++ {
		room[i] = byte(i % 7)
	}
	guard := bytes.Clone(room)
	in := room[:len(data)]

	dr, err := p2p.Decode(in)
	if err == nil {
		t.Event("decoded", 1)
		one(t, data, dr)
	} else {
		t.Event("refused", 1)
		_ = err.Error()
		if m, ok := whole(data); ok {
			t.Failf("refused", "a well-formed message (%v) is refused: %v\n%x", m, err, cut(data))
		}
	}
	all := p2p.DecodeAll(in)
	if all.Read > uint64(len(data)) {
		t.Failf("read", "%d of %d bytes were read: %x", all.Read, len(data), cut(data))
	}
	n := uint64(0)
	for _, m := range all.Msgs {
		if m == nil {
			t.Failf("nil", "a decoded message is nil: %x", cut(data))
			return
		}
		_ = m.String()
		n += 4 + uint64(m.Length())
	}
	if n != all.Read {
		t.Failf("read", "the messages decoded have %d bytes, reported: %d: %x", n, all.Read, cut(data))
	}
	// What comes first is decoded whatever comes after it
	want := prefix(data)
	if len(all.Msgs) < len(want) {
		t.Failf("lost", "%d well-formed messages come first, %d were decoded: %x", len(want), len(all.Msgs), cut(data))
		return
	}
	for k, w := range want {
		if !same(w, all.Msgs[k]) {
			t.Failf("differs", "message %d is %v, decoded: %v: %x", k, w, all.Msgs[k], cut(data))
			return
		}
	}
	if !bytes.Equal(room, guard) {
		t.Failf("written", "decoding changed its input: %x", cut(data))
	}
}

func cut(b []byte) []byte { return b[:min(len(b), 400)] }

// whole says whether data starts with a whole, well-formed message of a known type.
func whole(data []byte) (env.Msg, bool) {
	if len(data) < 4 {
		return env.Msg{}, false
	}
	n := uint64(binary.BigEndian.Uint32(data))
	if n == 0 {
		return env.Msg{Type: -1}, true
	}
	if uint64(len(data)) < 4+n {
		return env.Msg{}, false
	}
	m := env.Msg{Type: int(data[4]), Payload: data[5 : 4+n]}
	p := len(m.Payload)
	ok := false
	switch m.Type {
	case 0, 1, 2, 3:
		ok = p == 0
	case 4:
		ok = p == 4
	case 5:
		ok = p >= 1
	case 6:
		ok = p == 12
	case 7:
		ok = p >= 8
	}
	return m, ok
}

// prefix returns the well-formed messages that data starts with.
func prefix(data []byte) (l []env.Msg) {
	for len(data) > 0 {
		m, ok := whole(data)
		if !ok {
			return
		}
		l = append(l, m)
		if m.Type < 0 {
			data = data[4:]
		} else {
			data = data[5+len(m.Payload):]
		}
	}
	return
}

func same(w env.Msg, got p2p.Message) bool {
	if w.Type < 0 {
		_, ok := got.(*p2p.MsgKeepAlive)
		return ok
	}
	if int(got.Mtype()) != w.Type || int(got.Length()) != 1+len(w.Payload) {
		return false
	}
	switch m := got.(type) {
	case *p2p.MsgChoke, *p2p.MsgUnchoke, *p2p.MsgInterested, *p2p.MsgNotInterested:
		return w.Type < 4
	case *p2p.MsgHave:
		return m.Index() == binary.BigEndian.Uint32(w.Payload)
	case *p2p.MsgBitfield:
		return bytes.Equal(m.Bitfield().Data(), w.Payload)
	case *p2p.MsgRequest:
		i, b, n, _ := w.Req()
		return m.Index() == i && m.Begin() == b && m.ReqLen() == n
	case *p2p.MsgPiece:
		i, b, d, _ := w.Piece()
		return m.Index() == i && m.Begin() == b && bytes.Equal(m.Block(), d)
	}
	return false
}

func one(t *mon.T, data []byte, dr p2p.DecodeResult) {
	if dr.Msg == nil {
		t.Failf("nil", "no error and no message: %x", cut(data))
		return
	}
	if dr.Read > uint64(len(data)) {
		t.Failf("read", "%d of %d bytes were read: %x", dr.Read, len(data), cut(data))
		return
	}
	m, ok := whole(data)
	if !ok {
		t.Failf("accepted", "a malformed message was decoded as %T: %x", dr.Msg, cut(data))
		return
	}
	if !same(m, dr.Msg) {
		t.Failf("differs", "%v was decoded as %v", m, dr.Msg)
	}
	if want := uint64(len(m.Bytes())); dr.Read != want {
		t.Failf("read", "%v has %d bytes, read: %d", m, want, dr.Read)
	}
}

func gen(t *mon.T) env.Msg {
	r := t.Rng
	m := env.Msg{Type: r.IntN(9) - 1}
	u := func() uint32 {
		return []uint32{0, 1, 255, 256, 1 << 31, 1<<32 - 1, r.Uint32(), r.Uint32N(100)}[r.IntN(8)]
	}
	switch m.Type {
	case 4:
		m.Payload = binary.BigEndian.AppendUint32(nil, u())
	case 5:
		m.Payload = []byte(ref.Str(r, 1+r.IntN(40)))
	case 6:
		m = env.Request(u(), u(), u())
	case 7:
		m.Payload = binary.BigEndian.AppendUint32(nil, u())
		m.Payload = binary.BigEndian.AppendUint32(m.Payload, u())
		m.Payload = append(m.Payload, ref.Str(r, r.IntN(60))...)
	}
	return m
}

func stream(t *mon.T) []byte {
	var b []byte
	for k := t.Rng.IntN(6); k >= 0; k-- {
		b = append(b, gen(t).Bytes()...)
	}
	return b
}

func random(t *mon.T, i int) {
	r := t.Rng
	for k := 0; k < 8; k++ {
		b := make([]byte, r.IntN(60))
		ref.Fill(r, b)
		switch r.IntN(3) {
		case 0: // a length that fits, or nearly
			if len(b) >= 5 {
				binary.BigEndian.PutUint32(b, uint32(len(b)-4+r.IntN(3)-1))
				b[4] = byte(r.IntN(12))
			}
		case 1:
			if len(b) >= 5 {
				binary.BigEndian.PutUint32(b, []uint32{0, 1, 5, 13, 1<<32 - 1, 1<<32 - 4, 1<<32 - 5, 1 << 31, 0 - uint32(1+r.IntN(70))}[r.IntN(9)])
				b[4] = byte(r.IntN(12))
			}
		}
		t.Key(b)
		if k == 0 {
			t.Sample("%x", b)
		}
		look(t, b)
	}
}

func mutated(t *mon.T, i int) {
	r := t.Rng
	b := stream(t)
	t.Sample("%x", b)
	look(t, b)
	for k := 0; k < 4; k++ {
		c := b[:r.IntN(len(b)+1)]
		t.Key(c)
		t.Event("cut", 1)
		look(t, c)
	}
	for k := 0; k < 6; k++ {
		c := bytes.Clone(b)
		for n := r.IntN(3); n >= 0; n-- {
			p := r.IntN(len(c))
			switch r.IntN(4) {
			case 0:
				c[p] = byte(r.Uint32())
			case 1:
				c[p] ^= 1 << r.IntN(8)
			case 2:
				c = append(c[:p:p], c[p+1:]...)
				if len(c) == 0 {
					c = []byte{0}
				}
			default:
				c = append(c[:p:p], append([]byte{byte(r.IntN(10))}, c[p:]...)...)
			}
		}
		t.Key(c)
		look(t, c)
	}
}

// grid has every type with every small length, and with more or fewer bytes.
func grid(t *mon.T, typ int) {
	t.Sample("type %d with lengths 0 to 40", typ)
	for n := 0; n <= 40; n++ {
		for have := max(0, n-3); have <= n+20; have++ {
			b := binary.BigEndian.AppendUint32(nil, uint32(n))
			b = append(b, byte(typ))
			for len(b) < 4+have {
				b = append(b, byte(len(b)))
			}
			b = b[:4+have]
			t.Key(b)
			look(t, b)
		}
	}
}

// large has many messages, or a large one; memory and time are in proportion.
func large(t *mon.T, i int) {
	r := t.Rng
	n := 200000 + r.IntN(1000000)
	var b []byte
	what := ""
	switch i % 6 {
	case 0:
		what = "keepalives"
		b = make([]byte, n)
	case 1:
		what = "a piece"
		b = env.Msg{Type: 7, Payload: make([]byte, n)}.Bytes()
	case 2:
		what = "a bitfield"
		b = env.Msg{Type: 5, Payload: bytes.Repeat([]byte{0xa5}, n)}.Bytes()
	case 3:
		what = "requests"
		for len(b) < n {
			b = append(b, env.Request(1, 2, 3).Bytes()...)
		}
	case 4:
		what = "bitfields with wrong lengths"
		for len(b) < n {
			b = append(b, 0, 0, 0, 1, 5)
		}
	default:
		what = "haves with wrong lengths"
		for len(b) < n {
			b = append(b, 0, 0, 0, 2, 4, 0)
		}
	}
	t.Key(what, n)
	t.Sample("%d bytes of %s", n, what)
	var m0, m1 runtime.MemStats
	runtime.ReadMemStats(&m0)
	all := p2p.DecodeAll(b)
	runtime.ReadMemStats(&m1)
	if all.Read > uint64(len(b)) {
		t.Failf("read", "%d of %d bytes were read", all.Read, len(b))
	}
	if used := m1.TotalAlloc - m0.TotalAlloc; used > uint64(len(b))*200+1<<20 {
		t.Failf("memory", "%s of %d bytes took %d bytes of memory", what, len(b), used)
	}
	if w := prefix(b); len(w) != len(all.Msgs) && i%6 < 4 {
		t.Failf("lost", "%s: %d messages, %d decoded", what, len(w), len(all.Msgs))
	}
	_ = fmt.Sprint(len(all.Msgs))
}
