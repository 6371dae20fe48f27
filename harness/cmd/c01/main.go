// C01: decoding bencode is total.
package main

import (
	"bytes"
	"math/rand/v2"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"gotor/bencode"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C01",
		Rule: "Byte strings: random bytes, strings over the bencode alphabet, valid encodings and the torrent files of the repository " +
			"with random edits (flips, cuts, splices, lengths replaced), and large hostile shapes (deep nesting, huge lengths, " +
			"megabytes of digits). A case is one batch of inputs; a distinct non-trivial input starts with a digit, i, l or d and is " +
			"longer than 2 bytes. Observed: every call returns a value or an error, leaves its input unchanged, and gives the same answer again, also to many threads at once (under the race detector).",
		Assumptions: []string{"a batch of small inputs decodes within 45 s of CPU time, a large input within 30 s and 1.2 GB"},
		Scenarios: []mon.Scenario{
			{Name: "random", Quick: 1280, Thorough: 12800, Shards: 8, Run: random},
			{Name: "mutated", Quick: 1920, Thorough: 19200, Shards: 8, Run: mutated},
			{Name: "concurrent", Quick: 160, Thorough: 3200, Shards: 4, Run: concurrent},
			{Name: "large", Quick: len(shapes), Thorough: len(shapes) * 6, Shards: 4, Run: large, CPUSec: 30, RSSMB: 1200},
		},
		Require: map[string]int{"decoded": 1000, "rejected": 1000, "large inputs": 10, "decoded by several threads": 5000},
	})
}

func one(t *mon.T, in []byte) {
	keep := bytes.Clone(in)
	v, err := bencode.Decode(in)
	if err == nil {
		t.Event("decoded", 1)
		if v == nil {
			t.Failf("nil-value", "Decode(%.200q) returned neither a value nor an error", keep)
		}
		if d, ok := v.(bencode.Dict); ok {
			for k := range d {
				use(d, k)
			}
			use(d, "missing key")
		}
	} else {
		t.Event("rejected", 1)
		_ = err.Error()
	}
	if !bytes.Equal(in, keep) {
		t.Failf("input-modified", "Decode modified its input %.200q", keep)
	}
	// Again, from a slice with other bytes behind it
	roomy := append(append(make([]byte, 0, len(in)+40), in...), "0:1:ee0123456789eeeeeeeeeeeeeeeeeeeeee"...)[:len(in)]
	var m0, m1 runtime.MemStats
	if len(in) > 50000 {
		runtime.ReadMemStats(&m0)
	}
	v2, err2 := bencode.Decode(roomy)
	if len(in) > 50000 {
		runtime.ReadMemStats(&m1)
		ratio := int(m1.TotalAlloc-m0.TotalAlloc) / len(in)
		t.Event("memory measured", 1)
		if ratio > 500 {
			t.Failf("memory", "Decode(%.100q...) allocated %d bytes for %d", keep, m1.TotalAlloc-m0.TotalAlloc, len(in))
		}
	}
	if (err == nil) != (err2 == nil) || err == nil && !reflect.DeepEqual(v, v2) {
		t.Failf("differs", "Decode(%.200q) gives %.200v, %v and then %.200v, %v", keep, v, err, v2, err2)
	}
	if len(in) > 2 && (in[0] == 'i' || in[0] == 'l' || in[0] == 'd' || (in[0] >= '0' && in[0] <= '9')) {
		t.Key(keep)
	}
}

// concurrent decodes the same inputs with many threads at once.
func concurrent(t *mon.T, i int) {
	r := t.Rng
	ins := make([][]byte, 40)
	want := make([]any, len(ins))
	for n := range ins {
		switch {
		case n%8 == 0 && len(files) > 0:
			ins[n] = bytes.Clone(files[r.IntN(len(files))])
		default:
			ins[n] = ref.Enc(ref.Value(r, 5, true))
		}
		if n%3 == 0 {
			ins[n] = Mutate(r, ins[n])
		}
		t.Key("concurrent", ins[n])
	}
	threads := 2 + r.IntN(7)
	var wg sync.WaitGroup
	type res struct {
		v   any
		err bool
	}
	got := make([][]res, threads)
	for g := range got {
		got[g] = make([]res, len(ins))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := range ins {
				k := (n*7 + g) % len(ins)
				v, err := bencode.Decode(ins[k])
				got[g][k] = res{v, err != nil}
			}
		}()
	}
	wg.Wait()
	for n := range ins {
		v, err := bencode.Decode(ins[n])
		want[n] = v
		for g := range got {
			t.Event("decoded by several threads", 1)
			if got[g][n].err != (err != nil) || !reflect.DeepEqual(got[g][n].v, v) {
				t.Failf("differs", "Decode(%.200q) is %.200v with %d threads, and %.200v, %v with one", ins[n], got[g][n], threads, v, err)
			}
		}
	}
}

func use(d bencode.Dict, k string) {
	d.GetInt(k)
	d.GetUint(k)
	d.GetString(k)
	d.GetList(k)
	d.GetDict(k)
}

func random(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 400; n++ {
		var in []byte
		switch r.IntN(3) {
		case 0:
			in = []byte(ref.Str(r, r.IntN(40)))
		case 1:
			const a = "iiiledd000123456789:::-e"
			in = make([]byte, r.IntN(30))
			for j := range in {
				in[j] = a[r.IntN(len(a))]
			}
		default:
			// tokens
			tok := []string{"i", "e", "l", "d", ":", "-", "0", "1:a", "3:abc", "i5e", "le", "de", "0:", "18446744073709551615:", "9223372036854775807:x",
				"9223372036854775808:", "4294967296:", "-1:", "i-0e", "i-e", "ie", "i9223372036854775808e", "i-9223372036854775809e", "2147483648:", " ", "\x00"}
			for j := r.IntN(12); j >= 0; j-- {
				in = append(in, tok[r.IntN(len(tok))]...)
			}
		}
		if n == 0 {
			t.Sample("%q", in)
		}
		one(t, in)
	}
}

func corpus() [][]byte {
	var out [][]byte
	files, _ := filepath.Glob("/repo/test/*.torrent")
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err == nil && len(b) < 100000 {
			out = append(out, b)
		}
	}
	return out
}

var files = corpus()

func mutated(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 150; n++ {
		var in []byte
		if n == 0 && len(files) > 0 {
			in = bytes.Clone(files[r.IntN(len(files))])
		} else {
			in = ref.Enc(ref.Value(r, 4, true))
		}
		for j := r.IntN(4); j >= 0; j-- {
			in = Mutate(r, in)
		}
		if n == 1 {
			t.Sample("%q", in)
		}
		one(t, in)
	}
}

// Mutate edits an encoding.
func Mutate(r *rand.Rand, in []byte) []byte {
	if len(in) == 0 {
		return []byte(ref.Str(r, 3))
	}
	p := r.IntN(len(in))
	switch r.IntN(8) {
	case 0:
		in[p] = byte(r.Uint32())
	case 1:
		in = in[:p]
	case 2:
		in = in[p:]
	case 3:
		in = append(in[:p:p], append([]byte(ref.Str(r, 1+r.IntN(4))), in[p:]...)...)
	case 4:
		q := p + r.IntN(len(in)-p)
		in = append(in[:p:p], in[q:]...)
	case 5:
		q := p + r.IntN(len(in)-p)
		in = append(in[:q:q], in[p:]...)
	case 6:
		// another length or number
		if k := bytes.IndexAny(in[p:], "0123456789"); k >= 0 {
			k += p
			e := k
			for e < len(in) && in[e] >= '0' && in[e] <= '9' {
				e++
			}
			num := []string{"0", "1", "00", "65536", "2147483647", "4294967295", "9223372036854775807", "18446744073709551615", strconv.Itoa(len(in) - e), strconv.Itoa(len(in) - e - 1),
				"99999999999999999999999999", ""}[r.IntN(12)]
			in = append(in[:k:k], append([]byte(num), in[e:]...)...)
		}
	default:
		in[p] = "ilde:-0"[r.IntN(7)]
	}
	return in
}

const mb = 1 << 20

var shapes = []struct {
	name string
	make func(n int) string
}{
	{"open lists", func(n int) string { return strings.Repeat("l", 8*n) }},
	{"open and closed lists", func(n int) string { return strings.Repeat("l", 4*n) + strings.Repeat("e", 4*n) }},
	{"open dicts", func(n int) string { return strings.Repeat("d1:a", 2*n) }},
	{"open and closed dicts", func(n int) string { return strings.Repeat("d1:a", 2*n) + "i1e" + strings.Repeat("e", 2*n) }},
	{"dicts and lists", func(n int) string { return strings.Repeat("d1:al", 2*n) + strings.Repeat("ee", 2*n) }},
	{"digits of an integer", func(n int) string { return "i" + strings.Repeat("1", 8*n) + "e" }},
	{"digits of an integer without end", func(n int) string { return "i" + strings.Repeat("1", 8*n) }},
	{"negative digits", func(n int) string { return "i-" + strings.Repeat("9", 8*n) + "e" }},
	{"digits of a length", func(n int) string { return strings.Repeat("1", 8*n) + ":" }},
	{"digits of a length without end", func(n int) string { return "l" + strings.Repeat("1", 8*n) }},
	{"zeros of a length", func(n int) string { return strings.Repeat("0", 8*n) + "1:a" }},
	{"zeros of an integer", func(n int) string { return "i" + strings.Repeat("0", 8*n) + "1e" }},
	{"list of empty lists", func(n int) string { return "l" + strings.Repeat("le", n) + "e" }},
	{"list of small strings", func(n int) string { return "l" + strings.Repeat("1:x", 2*n) + "e" }},
	{"list of integers", func(n int) string { return "l" + strings.Repeat("i7e", 2*n) + "e" }},
	{"dict with one key again and again", func(n int) string { return "d" + strings.Repeat("1:ai0e", n) + "e" }},
	{"dict with many keys", func(n int) string {
		var b strings.Builder
		b.WriteString("d")
		for i := 0; i < n/8; i++ {
			s := strconv.Itoa(10000000 + i)
			b.WriteString("8:" + s + "le")
		}
		return b.String() + "e"
	}},
	{"large string", func(n int) string { return strconv.Itoa(8*n) + ":" + strings.Repeat("x", 8*n) }},
	{"string longer than the data", func(n int) string { return strconv.Itoa(1<<40) + ":" + strings.Repeat("x", n) }},
	{"many strings longer than the data", func(n int) string { return strings.Repeat("l1000000000:", n/8) }},
	{"string that is one byte short", func(n int) string { return strconv.Itoa(n+1) + ":" + strings.Repeat("x", n) }},
	{"minus signs", func(n int) string { return "i" + strings.Repeat("-", 8*n) + "e" }},
	{"nested keys", func(n int) string { return "d" + strings.Repeat("d", n) }},
	{"lists in a list, each closed", func(n int) string {
		return "l" + strings.Repeat(strings.Repeat("l", 500)+strings.Repeat("e", 500), n/1000) + "e"
	}},
}

func large(t *mon.T, i int) {
	s := shapes[i%len(shapes)]
	n := mb / 2
	if i >= len(shapes) {
		n = mb/2 + t.Rng.IntN(2*mb)
	}
	in := s.make(n)
	t.Sample("%s, %d bytes", s.name, len(in))
	t.Key(s.name, n)
	t.Event("large inputs", 1)
	one(t, []byte(in))
	// The same inside a dictionary, as in a torrent file or a tracker response
	one(t, []byte("d8:announce3:foo4:info"+in+"e"))
}
