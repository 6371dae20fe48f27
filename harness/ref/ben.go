// Package ref holds what the checks compare against: independent, simple
// implementations of the formats, and generators.
package ref

import (
	"bytes"
	"errors"
	"math/big"
	"math/rand/v2"
	"sort"
	"strconv"

	"gotor/bencode"
)

// KV is an entry of an ordered dictionary.
type KV struct {
	K string
	V any
}

// Pairs is a dictionary that is encoded in the given order.
type Pairs []KV

// Raw is encoded as it is.
type Raw string

// Enc encodes int, int64, uint64, *big.Int, string, []any, map[string]any
// (sorted), Pairs (in that order) and Raw.
func Enc(v any) []byte {
	var b bytes.Buffer
	enc(&b, v)
	return b.Bytes()
}

func encStr(b *bytes.Buffer, s string) {
	b.WriteString(strconv.Itoa(len(s)))
	b.WriteByte(':')
	b.WriteString(s)
}

func enc(b *bytes.Buffer, v any) {
	switch v := v.(type) {
	case int:
		b.WriteString("i" + strconv.Itoa(v) + "e")
	case int64:
		b.WriteString("i" + strconv.FormatInt(v, 10) + "e")
	case uint64:
		b.WriteString("i" + strconv.FormatUint(v, 10) + "e")
	case *big.Int:
		b.WriteString("i" + v.String() + "e")
	case string:
		encStr(b, v)
	case []byte:
		encStr(b, string(v))
	case Raw:
		b.WriteString(string(v))
	case []any:
		b.WriteByte('l')
		for _, e := range v {
			enc(b, e)
		}
		b.WriteByte('e')
	case map[string]any:
		keys := make([]string, 0, len(v))
		for k := range v {
			keys = append(keys, k)
		}
		sort.Slice(keys, func(i, j int) bool { return bytes.Compare([]byte(keys[i]), []byte(keys[j])) < 0 })
		b.WriteByte('d')
		for _, k := range keys {
			encStr(b, k)
			enc(b, v[k])
		}
		b.WriteByte('e')
	case Pairs:
		b.WriteByte('d')
		for _, kv := range v {
			encStr(b, kv.K)
			enc(b, kv.V)
		}
		b.WriteByte('e')
	default:
		panic("ref.Enc: unsupported type")
	}
}

// Class says what a decoder has to do with an input.
type Class int

const (
	Valid   Class = iota // canonical bencoding: must be decoded
	Lax                  // not canonical, but understandable: may be decoded
	Invalid              // must be rejected
)

type dec struct {
	d    []byte
	p    int
	lax  bool
	dup  bool
	deep int
	max  int
}

var errBad = errors.New("bad")

// Dec decodes. dup says that a key occurs twice in a dictionary, in which case
// the value is not determined. depth is the deepest nesting.
func Dec(data []byte) (v any, cl Class, dup bool, depth int) {
	d := &dec{d: data}
	v, err := d.val()
	if err != nil {
		return nil, Invalid, d.dup, d.max
	}
	if d.p != len(data) {
		d.lax = true
	}
	if d.lax {
		return v, Lax, d.dup, d.max
	}
	return v, Valid, d.dup, d.max
}

func (d *dec) val() (any, error) {
	if d.p >= len(d.d) {
		return nil, errBad
	}
	switch c := d.d[d.p]; {
	case c == 'i':
		return d.int()
	case c == 'l':
		d.p++
		d.deep++
		d.max = max(d.max, d.deep)
		l := []any{}
		for {
			if d.p >= len(d.d) {
				return nil, errBad
			}
			if d.d[d.p] == 'e' {
				d.p++
				d.deep--
				return l, nil
			}
			v, err := d.val()
			if err != nil {
				return nil, err
			}
			l = append(l, v)
		}
	case c == 'd':
		d.p++
		d.deep++
		d.max = max(d.max, d.deep)
		m := map[string]any{}
		last, first := "", true
		for {
			if d.p >= len(d.d) {
				return nil, errBad
			}
			if d.d[d.p] == 'e' {
				d.p++
				d.deep--
				return m, nil
			}
			k, err := d.str()
			if err != nil {
				return nil, err
			}
			if !first && k <= last {
				d.lax = true
			}
			if _, ok := m[k]; ok {
				d.dup = true
			}
			first, last = false, k
			v, err := d.val()
			if err != nil {
				return nil, err
			}
			m[k] = v
		}
	case c >= '0' && c <= '9':
		return d.str()
	}
	return nil, errBad
}

func (d *dec) str() (string, error) {
	start := d.p
	for d.p < len(d.d) && d.d[d.p] >= '0' && d.d[d.p] <= '9' {
		d.p++
	}
	if d.p >= len(d.d) || d.d[d.p] != ':' || d.p == start {
		return "", errBad
	}
	num := d.d[start:d.p]
	d.p++
	if len(num) > 1 && num[0] == '0' {
		d.lax = true
	}
	for len(num) > 1 && num[0] == '0' {
		num = num[1:]
	}
	if len(num) > 18 {
		return "", errBad
	}
	n, _ := strconv.Atoi(string(num))
	if n > len(d.d)-d.p {
		return "", errBad
	}
	s := string(d.d[d.p : d.p+n])
	d.p += n
	return s, nil
}

func (d *dec) int() (int64, error) {
	d.p++
	start := d.p
	if d.p < len(d.d) && d.d[d.p] == '-' {
		d.p++
	}
	digits := d.p
	for d.p < len(d.d) && d.d[d.p] >= '0' && d.d[d.p] <= '9' {
		d.p++
	}
	if d.p >= len(d.d) || d.d[d.p] != 'e' || d.p == digits {
		return 0, errBad
	}
	s := string(d.d[start:d.p])
	nd := d.p - digits
	if nd > 1 && d.d[digits] == '0' {
		return 0, errBad // leading zeros
	}
	d.p++
	if s == "-0" {
		return 0, errBad
	}
	if nd > 19 {
		return 0, errBad
	}
	v, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return 0, errBad // out of range: no value of the API can hold it
	}
	return v, nil
}

// Same compares a value of ours (int64, string, []any, map[string]any) to one
// of the code under test.
func Same(want, got any) bool {
	switch w := want.(type) {
	case int64:
		g, ok := got.(int64)
		return ok && g == w
	case string:
		g, ok := got.(string)
		return ok && g == w
	case []any:
		g, ok := got.(bencode.List)
		if !ok || len(g) != len(w) {
			return false
		}
		for i := range w {
			if !Same(w[i], g[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		g, ok := got.(bencode.Dict)
		if !ok || len(g) != len(w) {
			return false
		}
		for k, v := range w {
			gv, ok := g[k]
			if !ok || !Same(v, gv) {
				return false
			}
		}
		return true
	}
	return false
}

// ToBencode converts a value of ours into one of the code under test.
func ToBencode(v any) any {
	switch v := v.(type) {
	case []any:
		l := make(bencode.List, 0, len(v))
		for _, e := range v {
			l = append(l, ToBencode(e))
		}
		return l
	case map[string]any:
		d := bencode.Dict{}
		for k, e := range v {
			d[k] = ToBencode(e)
		}
		return d
	}
	return v
}

// ToBencodeTypes is like ToBencode, but integers that fit become random ones
// of the smaller types.
func ToBencodeTypes(r *rand.Rand, v any) any {
	switch v := v.(type) {
	case int64:
		switch r.IntN(6) {
		case 0:
			return int(v)
		case 1:
			if int64(int8(v)) == v {
				return int8(v)
			}
		case 2:
			if int64(int16(v)) == v {
				return int16(v)
			}
		case 3:
			if int64(int32(v)) == v {
				return int32(v)
			}
		}
		return v
	case []any:
		l := make(bencode.List, 0, len(v))
		for _, e := range v {
			l = append(l, ToBencodeTypes(r, e))
		}
		return l
	case map[string]any:
		d := bencode.Dict{}
		for k, e := range v {
			d[k] = ToBencodeTypes(r, e)
		}
		return d
	}
	return v
}

// HasEmpty says whether v contains an empty string or an empty key.
func HasEmpty(v any) bool {
	switch v := v.(type) {
	case string:
		return v == ""
	case []any:
		for _, e := range v {
			if HasEmpty(e) {
				return true
			}
		}
	case map[string]any:
		for k, e := range v {
			if k == "" || HasEmpty(e) {
				return true
			}
		}
	}
	return false
}

// Str makes a string of n bytes from one of several alphabets.
func Str(r *rand.Rand, n int) string {
	b := make([]byte, n)
	switch r.IntN(4) {
	case 0:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	case 1:
		const a = "ilde0123456789:-"
		for i := range b {
			b[i] = a[r.IntN(len(a))]
		}
	case 2:
		const a = "\x00\x01\x7f\x80\xff\xfe /."
		for i := range b {
			b[i] = a[r.IntN(len(a))]
		}
	default:
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
	}
	return string(b)
}

// Int makes an integer, often one near the edge of something.
func Int(r *rand.Rand) int64 {
	switch r.IntN(8) {
	case 0:
		return 0
	case 1:
		return -1 << 63
	case 2:
		return 1<<63 - 1
	case 3:
		return int64(1)<<r.IntN(63) - int64(r.IntN(3))
	case 4:
		return -(int64(1) << r.IntN(63)) + int64(r.IntN(3))
	case 5:
		p := int64(1)
		for i := r.IntN(19); i > 0; i-- {
			p *= 10
		}
		return p - int64(r.IntN(2))
	case 6:
		return int64(r.IntN(2000)) - 1000
	}
	return int64(r.Uint64())
}

// Len makes a length, often short, sometimes at the edge of another number of
// digits.
func Len(r *rand.Rand) int {
	switch r.IntN(12) {
	case 0:
		return 0
	case 1:
		return 9 + r.IntN(3)
	case 2:
		return 99 + r.IntN(3)
	case 3:
		return r.IntN(1200)
	}
	return 1 + r.IntN(12)
}

// Value makes a value of int64, string, []any and map[string]any.
func Value(r *rand.Rand, depth int, empties bool) any {
	k := r.IntN(10)
	if depth <= 0 {
		k = r.IntN(5)
	}
	str := func() string {
		n := Len(r)
		if n == 0 && !empties {
			n = 1
		}
		return Str(r, n)
	}
	switch {
	case k < 2:
		return Int(r)
	case k < 5:
		return str()
	case k < 7:
		l := []any{}
		for i := r.IntN(6); i > 0; i-- {
			l = append(l, Value(r, depth-1, empties))
		}
		return l
	}
	m := map[string]any{}
	for i := r.IntN(7); i > 0; i-- {
		k := str()
		m[k] = Value(r, depth-1, empties)
		// Keys with a common prefix: the order matters
		if r.IntN(3) == 0 {
			m[k+Str(r, 1+r.IntN(2))] = Value(r, depth-2, empties)
		}
	}
	return m
}
