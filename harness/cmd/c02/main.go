// C02: bencode round trips, is canonical, and malformed input is rejected.
package main

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"gotor/bencode"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C02",
		Rule: "Random values (integers at all edges of int64, strings over hostile alphabets, nested lists and dictionaries whose keys share " +
			"prefixes) are encoded by an independent encoder and by the code under test, and decoded by both; every prefix and random edits of " +
			"the encodings are classified by an independent strict decoder into must-accept, may-accept and must-reject. " +
			"Distinct: by the encoding of the value or the edited bytes; values with at least one container or an extreme integer count as non-trivial.",
		Assumptions: []string{"encoding values with empty strings or keys may be refused (existing tests pin that); nesting up to 300 must be accepted"},
		Scenarios: []mon.Scenario{
			{Name: "values", Quick: 3200, Thorough: 32000, Shards: 8, Run: values},
			{Name: "edits", Quick: 2400, Thorough: 24000, Shards: 8, Run: edits},
			{Name: "integers", Quick: 320, Thorough: 3200, Shards: 8, Run: integers},
			{Name: "large", Quick: 24, Thorough: 240, Shards: 4, Run: large},
			{Name: "deep", Quick: 20, Thorough: 100, Run: deep},
			{Name: "accessors", Quick: 480, Thorough: 4800, Run: accessors},
		},
		Require: map[string]int{"round trips": 5000, "must-reject rejected": 5000, "must-accept accepted": 1000, "large values": 20},
	})
}

func decode(t *mon.T, in []byte) {
	want, cl, dup, depth := ref.Dec(in)
	got, err := bencode.Decode(in)
	switch {
	case cl == ref.Invalid && err == nil:
		t.Failf("accepted-malformed", "Decode(%.300q) = %.300v, but it is malformed", in, got)
	case cl == ref.Invalid:
		t.Event("must-reject rejected", 1)
	case cl == ref.Valid && depth <= 300 && err != nil:
		t.Failf("rejected-valid", "Decode(%.300q) failed: %v", in, err)
	case cl == ref.Valid && err == nil:
		t.Event("must-accept accepted", 1)
		if !ref.Same(want, got) {
			t.Failf("wrong-value", "Decode(%.300q) = %.300v, want %.300v", in, got, want)
		}
		if !ref.HasEmpty(want) {
			re, err := bencode.Encode(got)
			if err != nil || !bytes.Equal(re, in) {
				t.Failf("re-encoding", "Encode(Decode(x)) = %.300q, %v for x = %.300q", re, err, in)
			}
		}
	case err == nil:
		t.Event("lax accepted", 1)
		if !dup && !ref.Same(want, got) {
			t.Failf("wrong-value", "Decode(%.300q) = %.300v, want %.300v", in, got, want)
		}
	default:
		t.Event("lax rejected", 1)
	}
}

func values(t *mon.T, i int) {
	for n := 0; n < 30; n++ {
		empties := t.Rng.IntN(4) == 0
		v := ref.Value(t.Rng, 1+t.Rng.IntN(5), empties)
		want := ref.Enc(v)
		if n == 0 {
			t.Sample("%q", want)
		}
		t.Key(want)
		in := ref.ToBencode(v)
		got, err := bencode.Encode(in)
		if err != nil {
			if !ref.HasEmpty(v) {
				t.Failf("encode-failed", "Encode(%.300v) failed: %v", in, err)
			}
		} else {
			if !bytes.Equal(got, want) {
				t.Failf("encoding", "Encode(%.300v) = %.300q, want %.300q", in, got, want)
			}
			if again, err := bencode.Encode(in); err != nil || !bytes.Equal(got, again) {
				t.Failf("encoding-unstable", "Encode twice gave %.300q and %.300q", got, again)
			}
			t.Event("round trips", 1)
			// The other types of integers
			mixed := ref.ToBencodeTypes(t.Rng, v)
			if got, err := bencode.Encode(mixed); err != nil || !bytes.Equal(got, want) {
				t.Failf("encoding", "Encode(%#.300v) = %.300q, %v, want %.300q", mixed, got, err, want)
			}
		}
		if !ref.Same(v, in) {
			t.Failf("encode-modified", "Encode modified its argument")
		}
		decode(t, want)
		if t.Failed() {
			return
		}
	}
}

func edits(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 8; n++ {
		enc := ref.Enc(ref.Value(r, 3, true))
		if len(enc) > 1500 {
			enc = enc[:1500]
		}
		// Every proper prefix is malformed
		for k := 0; k < len(enc); k++ {
			decode(t, bytes.Clone(enc[:k]))
		}
		t.Key(enc)
		for j := 0; j < 120; j++ {
			m := bytes.Clone(enc)
			for e := r.IntN(2); e >= 0 && len(m) > 0; e-- {
				p := r.IntN(len(m))
				switch r.IntN(5) {
				case 0:
					m[p] = "ilde:-0123456789 \x00"[r.IntN(18)]
				case 1:
					m = append(m[:p:p], m[p+1:]...)
				case 2:
					m = append(m[:p:p], append([]byte{"ilde:-0123456789+_"[r.IntN(18)]}, m[p:]...)...)
				case 3:
					q := r.IntN(len(m))
					m[p], m[q] = m[q], m[p]
				default:
					m[p] = byte(r.Uint32())
				}
			}
			decode(t, m)
			if t.Failed() {
				return
			}
		}
	}
	t.Sample("edits of small values")
}

func integers(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 200; n++ {
		v := ref.Int(r)
		if n < 6 {
			v = []int64{math.MinInt64, math.MaxInt64, math.MinInt64 + 1, math.MaxInt64 - 1, 0, -1}[n]
		}
		s := fmt.Sprintf("i%de", v)
		t.Key(s)
		got, err := bencode.Encode(v)
		if err != nil || string(got) != s {
			t.Failf("encode-int", "Encode(%d) = %q, %v", v, got, err)
		}
		for _, x := range []struct {
			v    any
			want int64
		}{{int(v), v}, {int8(v), int64(int8(v))}, {int16(v), int64(int16(v))}, {int32(v), int64(int32(v))}} {
			got, err := bencode.Encode(x.v)
			if err != nil || string(got) != fmt.Sprintf("i%de", x.want) {
				t.Failf("encode-int", "Encode(%T(%v)) = %q, %v", x.v, x.v, got, err)
			}
			got, err = bencode.Encode(bencode.List{x.v, bencode.Dict{"k": x.v}})
			if err != nil || string(got) != fmt.Sprintf("li%ded1:ki%deee", x.want, x.want) {
				t.Failf("encode-int", "Encode([%T(%v), {k: same}]) = %q, %v", x.v, x.v, got, err)
			}
		}
		dv, err := bencode.Decode([]byte(s))
		if err != nil || dv != any(v) {
			t.Failf("decode-int", "Decode(%q) = %v, %v", s, dv, err)
		}
		t.Event("round trips", 1)
		// The same in a list and in a dictionary
		decode(t, []byte("l"+s+s+"e"))
		decode(t, []byte("d1:a"+s+"1:b1:xe"))
		// One digit more is out of range or another number
		decode(t, []byte(fmt.Sprintf("i%d%de", v, r.IntN(10))))
		decode(t, []byte(fmt.Sprintf("i0%de", v)))
		decode(t, []byte(fmt.Sprintf("i-%de", v)))
		decode(t, []byte(fmt.Sprintf("i+%de", v)))
		decode(t, []byte(fmt.Sprintf("i%d e", v)))
		decode(t, []byte(fmt.Sprintf("i%d.0e", v)))
		decode(t, []byte(fmt.Sprintf("i%d", v)))
	}
	for _, s := range []string{"i9223372036854775808e", "i-9223372036854775809e", "i18446744073709551615e", "i99999999999999999999e", "i0x10e", "i1_0e", "i٣e", "ie", "i-e"} {
		decode(t, []byte(s))
		decode(t, []byte("l"+s+"e"))
	}
	t.Sample("edges of int64")
}

// large has long strings and keys, and lists and dictionaries of many elements.
func large(t *mon.T, i int) {
	r := t.Rng
	str := func(n int) string {
		b := make([]byte, n)
		ref.Fill(r, b)
		return string(b)
	}
	var v any
	n := 0
	switch i % 4 {
	case 0:
		n = []int{999999, 1000000, 1<<20 - 1, 1 << 20, 1<<20 + 1, 9999999, 10000000, 1<<24 - 1, 1 << 24, 33554432, 100000, 65536, 99999}[r.IntN(13)]
		v = str(n)
		if r.IntN(2) == 0 {
			v = []any{int64(1), v, "x"}
		}
	case 1:
		n = 60000 + r.IntN(100000)
		v = map[string]any{str(n): str(n), "z" + str(5): []any{}, "": "", strings.Repeat("y", n): strings.Repeat("y", n-1)}
	case 2:
		n = 100000 + r.IntN(400000)
		l := make([]any, n)
		for k := range l {
			if r.IntN(2) == 0 {
				l[k] = ref.Int(r)
			} else {
				l[k] = "s"
			}
		}
		v = l
	default:
		n = 30000 + r.IntN(100000)
		d := map[string]any{}
		for k := 0; k < n; k++ {
			d[fmt.Sprint(k, "k")] = int64(k)
		}
		v = d
	}
	enc := ref.Enc(v)
	t.Key(enc)
	t.Sample("%d elements, %d bytes", n, len(enc))
	if !ref.HasEmpty(v) {
		if got, err := bencode.Encode(ref.ToBencode(v)); err != nil || !bytes.Equal(got, enc) {
			t.Failf("encoding", "%v for a value of %d elements, %d bytes instead of %d", err, n, len(got), len(enc))
		}
		t.Event("round trips", 1)
	}
	decode(t, enc)
	decode(t, enc[:len(enc)-1])
	decode(t, append([]byte("l"), append(enc, "i1ee"...)...))
	t.Event("large values", 1)
}

func deep(t *mon.T, i int) {
	n := 1 + t.Rng.IntN(300)
	if i == 0 {
		n = 300
	}
	var v any = "x"
	for k := 0; k < n; k++ {
		switch t.Rng.IntN(3) {
		case 0:
			v = []any{v}
		case 1:
			v = map[string]any{"k": v}
		default:
			v = []any{int64(k), v, "s"}
		}
	}
	enc := ref.Enc(v)
	t.Key(enc)
	t.Sample("nesting %d", n)
	decode(t, enc)
	// Deep, but also wide: what counts is the nesting
	l := []any{}
	for k := 0; k < 3000; k++ {
		l = append(l, []any{map[string]any{"a": []any{}}})
	}
	decode(t, ref.Enc(l))
}

func accessors(t *mon.T, i int) {
	r := t.Rng
	m := map[string]any{}
	for k := 0; k < 30; k++ {
		m[ref.Str(r, 1+r.IntN(6))] = ref.Value(r, 2, true)
	}
	enc := ref.Enc(m)
	t.Key(enc)
	t.Sample("%q", enc)
	v, err := bencode.Decode(enc)
	d, ok := v.(bencode.Dict)
	if err != nil || !ok {
		t.Failf("rejected-valid", "Decode(%.300q) = %T, %v", enc, v, err)
		return
	}
	check := func(k string, what string, match bool, got any, err error, want any) {
		t.Event("accessor calls", 1)
		if match != (err == nil) {
			t.Failf("accessor", "%s(%q): error %v, but the value is %.100v", what, k, err, m[k])
		} else if match && !ref.Same(want, got) {
			t.Failf("accessor", "%s(%q) = %.100v, want %.100v", what, k, got, want)
		}
	}
	keys := []string{"no such key", ""}
	for k := range m {
		keys = append(keys, k)
	}
	for _, k := range keys {
		w := m[k]
		iv, isInt := w.(int64)
		_, isStr := w.(string)
		_, isList := w.([]any)
		_, isDict := w.(map[string]any)
		gi, err := d.GetInt(k)
		check(k, "GetInt", isInt, gi, err, w)
		gu, err := d.GetUint(k)
		check(k, "GetUint", isInt && iv >= 0, int64(gu), err, w)
		gs, err := d.GetString(k)
		check(k, "GetString", isStr, gs, err, w)
		gl, err := d.GetList(k)
		check(k, "GetList", isList, gl, err, w)
		gd, err := d.GetDict(k)
		check(k, "GetDict", isDict, gd, err, w)
	}
}
