// C15: messages to peers have the layout of the protocol, and come back as they were.
package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand/v2"
	"runtime"
	"sync"

	"gotor/bf"
	"gotor/p2p"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C15",
		Rule: "Messages of every type with random and extreme fields: the bytes they encode to are compared with the layout of the protocol written down here, they are decoded again, alone and in a row, " +
			"and compared field by field. Encoded and decoded messages are kept while many others are encoded and decoded, by one and by several goroutines. Then everything that was given to or got from the code is overwritten, and what was decoded or encoded before must not have changed. A shared bitfield is encoded by many " +
			"goroutines under the race detector. Distinct by the messages.",
		Scenarios: []mon.Scenario{
			{Name: "messages", Quick: 4000, Thorough: 80000, Shards: 4, Run: messages},
			{Name: "streams", Quick: 1500, Thorough: 30000, Shards: 4, Run: streams},
			{Name: "kept", Quick: 600, Thorough: 20000, Shards: 4, Run: kept},
			{Name: "shared", Quick: 200, Thorough: 3000, Shards: 2, Run: shared},
		},
		Require: map[string]int{"round trips": 10000, "in a row": 5000, "kept": 10000, "shared encodings": 2000},
	})
}

type item struct {
	want env.Msg
	make func() p2p.Message
	desc string
	data []byte // the block given
}

func u32(r *rand.Rand) uint32 {
	return []uint32{0, 1, 127, 128, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, r.Uint32(), r.Uint32N(100)}[r.IntN(13)]
}

func gen(r *rand.Rand) item {
	u := func() uint32 { return u32(r) }
	be := binary.BigEndian.AppendUint32
	switch k := r.IntN(9); k {
	case 0:
		return item{env.Msg{Type: -1}, func() p2p.Message { return &p2p.KeepAliveSingleton }, "keepalive", nil}
	case 1:
		return item{env.Msg{Type: 0}, func() p2p.Message { return p2p.NewMsgChoke() }, "choke", nil}
	case 2:
		return item{env.Msg{Type: 1}, func() p2p.Message { return p2p.NewMsgUnchoke() }, "unchoke", nil}
	case 3:
		return item{env.Msg{Type: 2}, func() p2p.Message { return p2p.NewMsgInterested() }, "interested", nil}
	case 4:
		return item{env.Msg{Type: 3}, func() p2p.Message { return p2p.NewMsgNotInterested() }, "not interested", nil}
	case 5:
		i := u()
		return item{env.Msg{Type: 4, Payload: be(nil, i)}, func() p2p.Message { return p2p.NewMsgHave(i) }, fmt.Sprintf("have %d", i), nil}
	case 6:
		n := 1 + r.IntN(200)
		if r.IntN(20) == 0 {
			n = 1 + r.IntN(200000)
			if r.IntN(5) == 0 {
				n = 500000 + r.IntN(1500000)
			}
		}
		m := make([]bool, n)
		p := r.IntN(3)
		b := bf.NewBitfield(int64(n))
		for i := range m {
			m[i] = p == 1 || p == 2 && r.IntN(2) == 0
			b.Set(int64(i), m[i])
		}
		if p == 1 && r.IntN(2) == 0 {
			b = bf.NewBitfield(int64(n))
			b.Fill()
		}
		return item{env.Msg{Type: 5, Payload: env.Bits(m)}, func() p2p.Message { return p2p.NewMsgBitfield(b) }, fmt.Sprintf("bitfield of %d", n), nil}
	case 7:
		a, b, c := u(), u(), u()
		return item{env.Request(a, b, c), func() p2p.Message { return p2p.NewMsgRequest(a, b, c) }, fmt.Sprintf("request %d %d %d", a, b, c), nil}
	default:
		a, b := u(), u()
		n := []int{0, 1, 16384, r.IntN(100)}[r.IntN(4)]
		if r.IntN(100) == 0 {
			n = []int{32768, 65526, 65527, 65535, 65536, 131072, 1<<20 - 9, 1 << 20, r.IntN(1 << 20)}[r.IntN(9)]
		}
		d := make([]byte, n)
		ref.Fill(r, d)
		return item{env.Msg{Type: 7, Payload: append(be(be(nil, a), b), d...)}, func() p2p.Message { return p2p.NewMsgPiece(a, b, d) }, fmt.Sprintf("piece %d %d with %d bytes", a, b, n), d}
	}
}

// fields compares a message with what it should be, through its getters.
func fields(w env.Msg, got p2p.Message) error {
	if got == nil {
		return fmt.Errorf("no message")
	}
	if _, ok := got.(*p2p.MsgKeepAlive); ok != (w.Type < 0) {
		return fmt.Errorf("keepalive: %v", ok)
	}
	if w.Type < 0 {
		return nil
	}
	if int(got.Mtype()) != w.Type || int(got.Length()) != 1+len(w.Payload) {
		return fmt.Errorf("type %d, length %d", got.Mtype(), got.Length())
	}
	_ = got.String()
	ok := false
	switch m := got.(type) {
	case *p2p.MsgChoke:
		ok = w.Type == 0
	case *p2p.MsgUnchoke:
		ok = w.Type == 1
	case *p2p.MsgInterested:
		ok = w.Type == 2
	case *p2p.MsgNotInterested:
		ok = w.Type == 3
	case *p2p.MsgHave:
		ok = w.Type == 4 && m.Index() == binary.BigEndian.Uint32(w.Payload)
	case *p2p.MsgBitfield:
		ok = w.Type == 5 && bytes.Equal(m.Bitfield().Data(), w.Payload)
	case *p2p.MsgRequest:
		i, b, n, is := w.Req()
		ok = is && m.Index() == i && m.Begin() == b && m.ReqLen() == n
	case *p2p.MsgPiece:
		i, b, d, is := w.Piece()
		ok = is && m.Index() == i && m.Begin() == b && bytes.Equal(m.Block(), d)
	}
	if !ok {
		return fmt.Errorf("%T differs", got)
	}
	return nil
}

func messages(t *mon.T, i int) {
	for k := 0; k < 4; k++ {
		it := gen(t.Rng)
		t.Key(it.want.Bytes())
		t.Sample("%s", it.desc)
		m := it.make()
		if err := fields(it.want, m); err != nil {
			t.Failf("made", "%s: %v", it.desc, err)
			return
		}
		enc := m.Encode()
		if !bytes.Equal(enc, it.want.Bytes()) {
			t.Failf("layout", "%s: encoded %.80x, should be %.80x", it.desc, enc, it.want.Bytes())
			return
		}
		if again := m.Encode(); !bytes.Equal(enc, again) {
			t.Failf("layout", "%s: encoded a second time as %.80x", it.desc, again)
			return
		}
		in := bytes.Clone(enc)
		dr, err := p2p.Decode(in)
		if err != nil || dr.Read != uint64(len(enc)) {
			t.Failf("decode", "%s: decoding what was encoded: %d of %d bytes, %v", it.desc, dr.Read, len(enc), err)
			return
		}
		if err := fields(it.want, dr.Msg); err != nil {
			t.Failf("decode", "%s: decoded again: %v", it.desc, err)
			return
		}
		// The receive buffer is used again
		for j := range in {
			in[j] ^= 0xff
		}
		if err := fields(it.want, dr.Msg); err != nil {
			t.Failf("alias", "%s: when the buffer it was decoded from was overwritten, the message changed: %v", it.desc, err)
			return
		}
		// The buffer of the file is used again
		enc = m.Encode()
		for j := range it.data {
			it.data[j] ^= 0xff
		}
		if !bytes.Equal(enc, it.want.Bytes()) {
			t.Failf("alias", "%s: when the data it was made from was overwritten, the encoded message changed", it.desc)
			return
		}
		for j := range it.data {
			it.data[j] ^= 0xff
		}
		for j := range enc {
			enc[j] ^= 0xff
		}
		if e := m.Encode(); !bytes.Equal(e, it.want.Bytes()) {
			t.Failf("alias", "%s: when the encoded message was overwritten, it encodes to something else", it.desc)
			return
		}
		if e := dr.Msg.Encode(); !bytes.Equal(e, it.want.Bytes()) {
			t.Failf("layout", "%s: decoded and encoded again: %.80x, should be %.80x", it.desc, e, it.want.Bytes())
			return
		}
		t.Event("round trips", 1)
	}
}

func streams(t *mon.T, i int) {
	var all []byte
	var l []item
	for k := t.Rng.IntN(30); k >= 0; k-- {
		it := gen(t.Rng)
		l = append(l, it)
		all = append(all, it.make().Encode()...)
	}
	t.Key(all)
	t.Sample("%d messages, %d bytes", len(l), len(all))
	in := bytes.Clone(all)
	dar := p2p.DecodeAll(in)
	for j := range in {
		in[j] = 0xee
	}
	if len(dar.Msgs) != len(l) || dar.Read != uint64(len(all)) {
		t.Failf("stream", "%d messages (%d bytes) were decoded as %d (%d bytes)", len(l), len(all), len(dar.Msgs), dar.Read)
		return
	}
	for k, it := range l {
		if err := fields(it.want, dar.Msgs[k]); err != nil {
			t.Failf("stream", "message %d of %d, %s: %v", k, len(l), it.desc, err)
			return
		}
		t.Event("in a row", 1)
	}
	// Cut: what is whole is decoded
	n := t.Rng.IntN(len(all) + 1)
	whole, at := 0, 0
	for _, it := range l {
		if at+len(it.want.Bytes()) > n {
			break
		}
		at += len(it.want.Bytes())
		whole++
	}
	dar = p2p.DecodeAll(bytes.Clone(all[:n]))
	if len(dar.Msgs) != whole || dar.Read != uint64(at) {
		t.Failf("stream", "%d bytes have %d whole messages (%d bytes); decoded: %d (%d bytes)\n%.300x", n, whole, at, len(dar.Msgs), dar.Read, all[:n])
	}
}

// kept: what was encoded and decoded stays the same while others are encoded
// and decoded.
func kept(t *mon.T, i int) {
	workers := 1 + t.Rng.IntN(6)
	seed := t.Rng.Uint64()
	t.Key(seed)
	t.Sample("%d goroutines", workers)
	one := gen(t.Rng) // all of the same type, in some cases
	same := t.Rng.IntN(2) == 0
	var wg sync.WaitGroup
	for g := 0; g < workers; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := rand.New(rand.NewPCG(seed, uint64(g)))
			var l []item
			var enc [][]byte
			var dec []p2p.Message
			for len(l) < 12 {
				it := gen(r)
				if same && it.want.Type != one.want.Type || len(it.want.Payload) > 20000 {
					if r.IntN(100) > 0 {
						continue
					}
				}
				e := it.make().Encode()
				d, err := p2p.Decode(bytes.Clone(it.want.Bytes()))
				if err != nil {
					t.Failf("decode", "%s: %v", it.desc, err)
					return
				}
				l, enc, dec = append(l, it), append(enc, e), append(dec, d.Msg)
				if r.IntN(4) == 0 {
					runtime.Gosched()
				}
			}
			for k, it := range l {
				if !bytes.Equal(enc[k], it.want.Bytes()) {
					t.Failf("kept", "%s was encoded, then %d other messages (%d goroutines): now it is %.60x, should be %.60x", it.desc, len(l)-1-k, workers, enc[k], it.want.Bytes())
				}
				if err := fields(it.want, dec[k]); err != nil {
					t.Failf("kept", "%s was decoded, then %d other messages (%d goroutines): now %v", it.desc, len(l)-1-k, workers, err)
				}
				t.Event("kept", 1)
			}
		}()
	}
	wg.Wait()
}

// shared: the client encodes its own bitfield for many peers at the same time.
func shared(t *mon.T, i int) {
	n := 1 + t.Rng.IntN(300)
	b := bf.NewBitfield(int64(n))
	m := make([]bool, n)
	for k := range m {
		m[k] = t.Rng.IntN(2) == 0
		b.Set(int64(k), m[k])
	}
	want := env.Msg{Type: 5, Payload: env.Bits(m)}.Bytes()
	t.Key(want)
	t.Sample("bitfield of %d, encoded by 8 goroutines", n)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 10; k++ {
				e := p2p.NewMsgBitfield(b).Encode()
				ka := p2p.KeepAliveSingleton
				if !bytes.Equal(e, want) || !bytes.Equal(ka.Encode(), []byte{0, 0, 0, 0}) {
					t.Failf("shared", "bitfield of %d, encoded by several goroutines: %.60x instead of %.60x", n, e, want)
					return
				}
				t.Event("shared encodings", 1)
			}
		}()
	}
	wg.Wait()
}
