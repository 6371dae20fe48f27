// C13: a bitfield is an exact set of piece numbers.
package main

import (
	"bytes"
	"fmt"
	"math/rand/v2"

	"gotor/bf"
	"verifharness/env"
	"verifharness/mon"
)

func main() {
	mon.Main(mon.Check{
		ID: "C13",
		Rule: "Histories of operations (set, clear, fill, made from bytes with or without stray bits past the end, number of bits changed within the last byte) on bitfields of every size from 0 to 200 bits, " +
			"of random sizes, and of a million bits, side by side with an array of booleans. After each operation: every bit, the count, the completeness, the sizes and the bytes as sent to peers. " +
			"Distinct by size and history.",
		Assumptions: []string{"bit numbers are within the bitfield, as at all uses"},
		Scenarios: []mon.Scenario{
			{Name: "sizes", Quick: 40000, Thorough: 400000, Shards: 8, Run: func(t *mon.T, i int) { history(t, int64(i%201), 40) }},
			{Name: "random", Quick: 20000, Thorough: 200000, Shards: 8, Run: func(t *mon.T, i int) { history(t, 1+t.Rng.Int64N(5000), 20) }},
			{Name: "million", Quick: 160, Thorough: 1600, Shards: 8, Run: func(t *mon.T, i int) { history(t, 1<<20+t.Rng.Int64N(16), 6) }},
			{Name: "bytes", Quick: 60000, Thorough: 600000, Shards: 8, Run: fromBytes},
		},
		Require: map[string]int{"states compared": 50000, "complete": 1000, "stray bits": 500, "refused": 300},
	})
}

type state struct {
	b    *bf.Bitfield
	m    []bool
	hist string
	// spare holds the bits past the end, which only come from bytes given
	spare []bool
}

func (s *state) check(t *mon.T) bool {
	n := int64(len(s.m))
	fail := func(f string, a ...any) bool {
		t.Failf("differs", "%d bits: %s\nafter: %s", n, fmt.Sprintf(f, a...), s.hist)
		return false
	}
	set := int64(0)
	for i, v := range s.m {
		if v {
			set++
		}
		if s.b.Get(int64(i)) != v {
			return fail("bit %d is %v", i, !v)
		}
	}
	if s.b.Nset() != set {
		return fail("%d bits are set, counted: %d", set, s.b.Nset())
	}
	if s.b.Complete() != (set == n) {
		return fail("%d bits are set, complete: %v", set, s.b.Complete())
	}
	if s.b.Nbits() != n || s.b.Nbytes() != (n+7)/8 || int64(len(s.b.Data())) != (n+7)/8 || int64(len(s.b.Data5())) != 5+(n+7)/8 {
		return fail("it says it has %d bits, %d bytes, data of %d and %d bytes", s.b.Nbits(), s.b.Nbytes(), len(s.b.Data()), len(s.b.Data5()))
	}
	want := env.Bits(append(append([]bool{}, s.m...), s.spare...))
	if !bytes.Equal(s.b.Data(), want) || !bytes.Equal(s.b.Data5()[5:], want) {
		return fail("the bytes are %.100x instead of %.100x", s.b.Data(), want)
	}
	t.Event("states compared", 1)
	if set == n {
		t.Event("complete", 1)
	}
	return true
}

func (s *state) step(r *rand.Rand) {
	n := int64(len(s.m))
	switch k := r.IntN(20); {
	case k == 0:
		s.b.Fill()
		s.hist += "fill; "
		for i := range s.m {
			s.m[i] = true
		}
		s.spare = nil
	case k == 1 && n > 0 && s.spare == nil:
		// all one by one
		v := r.IntN(3) > 0
		s.hist += fmt.Sprintf("all %v; ", v)
		for _, i := range r.Perm(len(s.m)) {
			s.b.Set(int64(i), v)
			s.m[i] = v
		}
	case n > 0:
		i := r.Int64N(n)
		switch r.IntN(4) {
		case 0:
			i = n - 1
		case 1:
			i = min(n-1, i|7)
		}
		v := r.IntN(3) > 0
		s.hist += fmt.Sprintf("%d=%v; ", i, v)
		s.b.Set(i, v)
		s.m[i] = v
	}
}

func history(t *mon.T, n int64, steps int) {
	s := &state{b: bf.NewBitfield(n), m: make([]bool, n)}
	if !s.check(t) {
		return
	}
	for k := 0; k < steps; k++ {
		s.step(t.Rng)
		if !s.check(t) {
			return
		}
	}
	t.Key(n, s.hist)
	t.Sample("%d bits: %s", n, s.hist)
}

func fromBytes(t *mon.T, i int) {
	r := t.Rng
	nb := int64(r.IntN(40))
	data := make([]byte, 5+nb)
	for k := range data {
		data[k] = []byte{0, 255, byte(r.Uint32())}[r.IntN(3)]
	}
	n := nb*8 - r.Int64N(8)
	switch r.IntN(10) {
	case 0:
		n += 8
	case 1:
		n -= 8
	case 2:
		n = r.Int64N(1<<40) - 1<<39
	}
	t.Key(data, n)
	t.Sample("%d bits from %x", n, data)
	fits := nb > 0 && (n+7)/8 == nb && n > 0
	b, err := bf.FromBytes(bytes.Clone(data), n)
	if fits != (err == nil) {
		t.Failf("bytes", "%d bits from %d bytes: error %v", n, nb, err)
		return
	}
	if err != nil {
		t.Event("refused", 1)
		for k := int64(0); k < 5; k++ {
			if _, err := bf.FromBytes(make([]byte, k), n); err == nil {
				t.Failf("bytes", "%d bytes, which are too few for a header, were accepted", k)
			}
		}
		return
	}
	s := &state{b: b, hist: fmt.Sprintf("from %x; ", data)}
	for k := int64(0); k < nb*8; k++ {
		v := data[5+k/8]&(0x80>>(k%8)) != 0
		if k < n {
			s.m = append(s.m, v)
		} else {
			s.spare = append(s.spare, v)
			if v {
				t.Event("stray bits", 1)
			}
		}
	}
	if !s.check(t) {
		return
	}
	for k := 0; k < 10; k++ {
		if r.IntN(3) == 0 {
			// another number of bits, with the same number of bytes
			n = nb*8 - r.Int64N(8)
			all := append(append([]bool{}, s.m...), s.spare...)
			for int64(len(all)) < nb*8 {
				all = append(all, false)
			}
			b.SetNbits(n)
			s.hist += fmt.Sprintf("%d bits; ", n)
			s.m, s.spare = all[:n:n], append([]bool{}, all[n:]...)
		} else {
			s.step(r)
		}
		if !s.check(t) {
			return
		}
	}
}
