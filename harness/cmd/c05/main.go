// C05: a torrent file that is malformed is refused, or read into something
// consistent; it never crashes or blocks the program.
package main

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"os"
	"path/filepath"

	"gotor/torrent"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C05",
		Rule: "Well-formed torrent files with one to three defects: keys missing or of another type, negative, zero, huge and overflowing lengths, " +
			"wrong numbers of piece hashes, hashes cut, empty or ill-typed paths, not a dictionary, truncated, bytes flipped, empty, a directory, missing. " +
			"A case opens a batch of them. Observed: an error, or a torrent whose lengths, hashes, files and piece locations agree. Distinct by the bytes.",
		Assumptions: []string{"a defect is one that leaves the torrent without meaning: missing announce, name, piece length, pieces or length, wrong hash count, negative or overflowing lengths, empty path"},
		Scenarios: []mon.Scenario{
			{Name: "defects", Quick: 3200, Thorough: 32000, Shards: 8, Nobody: true, Run: defects, CPUSec: 20},
			{Name: "bytes", Quick: 2400, Thorough: 24000, Shards: 8, Nobody: true, Run: flips, CPUSec: 20},
			{Name: "empty", Quick: 160, Thorough: 3200, Shards: 8, Nobody: true, Run: empty, CPUSec: 20},
			{Name: "files", Quick: 4, Thorough: 20, Nobody: true, Run: odd},
		},
		Require: map[string]int{"nothing to hash": 1000, "refused": 3000, "accepted": 1000, "must-refuse refused": 2000},
	})
}

type defect struct {
	name string
	must bool // must be refused
	do   func(t *mon.T, info, top *ref.Pairs)
}

func set(p *ref.Pairs, k string, v any) {
	for i := range *p {
		if (*p)[i].K == k {
			(*p)[i].V = v
			return
		}
	}
	*p = append(*p, ref.KV{K: k, V: v})
}

func del(p *ref.Pairs, k string) {
	for i := range *p {
		if (*p)[i].K == k {
			*p = append((*p)[:i:i], (*p)[i+1:]...)
			return
		}
	}
}

func get(p *ref.Pairs, k string) any {
	for i := range *p {
		if (*p)[i].K == k {
			return (*p)[i].V
		}
	}
	return nil
}

func badType(t *mon.T, want string) any {
	all := map[string]any{"int": int64(7), "string": "x", "list": []any{"x"}, "dict": map[string]any{"x": "y"}}
	delete(all, want)
	var l []any
	for _, k := range []string{"int", "string", "list", "dict"} {
		if v, ok := all[k]; ok {
			l = append(l, v)
		}
	}
	return l[t.Rng.IntN(len(l))]
}

func onFile(f func(t *mon.T, fd *ref.Pairs)) func(t *mon.T, info, top *ref.Pairs) {
	return func(t *mon.T, info, top *ref.Pairs) {
		l, ok := get(info, "files").([]any)
		if !ok || len(l) == 0 {
			// make it a torrent with several files
			del(info, "length")
			l = []any{ref.Pairs{{K: "length", V: int64(5)}, {K: "path", V: []any{"p"}}}}
			set(info, "pieces", "12345678901234567890")
			set(info, "piece length", int64(16))
		}
		k := t.Rng.IntN(len(l))
		fd := ref.Pairs{{K: "length", V: int64(5)}, {K: "path", V: []any{"p"}}}
		if p, ok := l[k].(ref.Pairs); ok { // (not, after another defect)
			fd = append(ref.Pairs{}, p...)
		}
		f(t, &fd)
		l = append([]any{}, l...)
		l[k] = fd
		set(info, "files", l)
	}
}

var defectList = []defect{
	{"no announce", true, func(t *mon.T, info, top *ref.Pairs) { del(top, "announce") }},
	{"announce of another type", true, func(t *mon.T, info, top *ref.Pairs) { set(top, "announce", badType(t, "string")) }},
	{"no info", true, func(t *mon.T, info, top *ref.Pairs) { del(top, "info") }},
	{"info of another type", true, func(t *mon.T, info, top *ref.Pairs) { set(top, "info", badType(t, "dict")) }},
	{"no name", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "name") }},
	{"name of another type", true, func(t *mon.T, info, top *ref.Pairs) { set(info, "name", badType(t, "string")) }},
	{"no piece length", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "piece length") }},
	{"piece length of another type", true, func(t *mon.T, info, top *ref.Pairs) { set(info, "piece length", badType(t, "int")) }},
	{"piece length zero", true, func(t *mon.T, info, top *ref.Pairs) { set(info, "piece length", int64(0)) }},
	{"piece length negative", true, func(t *mon.T, info, top *ref.Pairs) {
		set(info, "piece length", []int64{-1, -16384, math.MinInt64}[t.Rng.IntN(3)])
	}},
	{"piece length huge", false, func(t *mon.T, info, top *ref.Pairs) {
		set(info, "piece length", []int64{1 << 31, 1 << 32, 1 << 40, math.MaxInt64}[t.Rng.IntN(4)])
	}},
	{"piece length not an int64", true, func(t *mon.T, info, top *ref.Pairs) { set(info, "piece length", new(big.Int).Lsh(big.NewInt(1), 70)) }},
	{"another piece length", false, func(t *mon.T, info, top *ref.Pairs) { set(info, "piece length", 1+t.Rng.Int64N(100)) }},
	{"no pieces", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "pieces") }},
	{"pieces of another type", true, func(t *mon.T, info, top *ref.Pairs) { set(info, "pieces", badType(t, "string")) }},
	{"pieces cut", true, func(t *mon.T, info, top *ref.Pairs) {
		if s, ok := get(info, "pieces").(string); ok && len(s) > 0 {
			set(info, "pieces", s[:len(s)-1-t.Rng.IntN(min(19, len(s)))])
		} else {
			set(info, "pieces", "x")
		}
	}},
	{"a piece hash too many", true, func(t *mon.T, info, top *ref.Pairs) {
		s, _ := get(info, "pieces").(string)
		set(info, "pieces", s+"12345678901234567890")
	}},
	{"a piece hash too few", true, func(t *mon.T, info, top *ref.Pairs) {
		if s, ok := get(info, "pieces").(string); ok && len(s) >= 20 {
			set(info, "pieces", s[20:])
		} else {
			set(info, "pieces", "x")
		}
	}},
	{"no length", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "length"); del(info, "files") }},
	{"length negative", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "files")
		set(info, "length", []int64{-1, -20, math.MinInt64}[t.Rng.IntN(3)])
	}},
	{"length huge", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "files")
		set(info, "piece length", int64(16))
		set(info, "length", []int64{math.MaxInt64, 1 << 62, math.MaxInt64 - 15}[t.Rng.IntN(3)])
	}},
	{"files of another type", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "length"); set(info, "files", badType(t, "list")) }},
	{"a file of another type", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "length")
		set(info, "files", []any{badType(t, "dict")})
	}},
	{"no files", true, func(t *mon.T, info, top *ref.Pairs) { del(info, "length"); set(info, "files", []any{}) }},
	{"length and files", false, func(t *mon.T, info, top *ref.Pairs) { set(info, "length", int64(3)); set(info, "files", []any{}) }},
	{"file without length", true, onFile(func(t *mon.T, fd *ref.Pairs) { del(fd, "length") })},
	{"file length of another type", true, onFile(func(t *mon.T, fd *ref.Pairs) { set(fd, "length", badType(t, "int")) })},
	{"file length negative", true, onFile(func(t *mon.T, fd *ref.Pairs) {
		set(fd, "length", []int64{-1, -5, math.MinInt64, -1 << 32}[t.Rng.IntN(4)])
	})},
	{"file length huge", true, onFile(func(t *mon.T, fd *ref.Pairs) {
		set(fd, "length", []int64{math.MaxInt64, math.MaxInt64 - 1, 1 << 62}[t.Rng.IntN(3)])
	})},
	{"file without path", true, onFile(func(t *mon.T, fd *ref.Pairs) { del(fd, "path") })},
	{"file path of another type", true, onFile(func(t *mon.T, fd *ref.Pairs) { set(fd, "path", badType(t, "list")) })},
	{"file path empty", true, onFile(func(t *mon.T, fd *ref.Pairs) { set(fd, "path", []any{}) })},
	{"file path element of another type", true, onFile(func(t *mon.T, fd *ref.Pairs) { set(fd, "path", []any{"a", badType(t, "string")}) })},
	{"file path element empty", false, onFile(func(t *mon.T, fd *ref.Pairs) { set(fd, "path", []any{"a", ""}) })},
	{"a file named twice", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "length")
		set(info, "piece length", int64(16))
		set(info, "pieces", "12345678901234567890")
		var l []any
		n := 2 + t.Rng.IntN(3)
		for k := 0; k < n; k++ {
			l = append(l, ref.Pairs{{K: "length", V: t.Rng.Int64N(4) + int64(min(k, 1))}, {K: "path", V: []any{"d", fmt.Sprint(k)}}})
		}
		a := t.Rng.IntN(n)
		b := (a + 1 + t.Rng.IntN(n-1)) % n
		l[a].(ref.Pairs)[1].V = l[b].(ref.Pairs)[1].V
		if t.Rng.IntN(3) == 0 {
			l[a].(ref.Pairs)[0].V = l[b].(ref.Pairs)[0].V
		}
		if l[a].(ref.Pairs)[0].V == int64(0) && l[b].(ref.Pairs)[0].V == int64(0) {
			l[a].(ref.Pairs)[0].V = int64(1)
		}
		set(info, "files", l)
	}},
	{"lengths that add up to more than an int64", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "length")
		l := []any{}
		for k := 0; k < 3; k++ {
			l = append(l, ref.Pairs{{K: "length", V: int64(1) << 62}, {K: "path", V: []any{fmt.Sprint(k)}}})
		}
		// The sum is 3<<62, which is -1<<62 if it wraps around
		set(info, "files", l)
	}},
	{"lengths whose sum wraps around to a fitting one", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "length")
		set(info, "piece length", int64(16))
		set(info, "pieces", "12345678901234567890")
		set(info, "files", []any{
			ref.Pairs{{K: "length", V: int64(math.MaxInt64)}, {K: "path", V: []any{"a"}}},
			ref.Pairs{{K: "length", V: int64(math.MaxInt64)}, {K: "path", V: []any{"b"}}},
			ref.Pairs{{K: "length", V: int64(5)}, {K: "path", V: []any{"c"}}}})
	}},
	{"negative and positive lengths that fit together", true, func(t *mon.T, info, top *ref.Pairs) {
		del(info, "length")
		set(info, "piece length", int64(16))
		set(info, "pieces", "12345678901234567890")
		set(info, "files", []any{
			ref.Pairs{{K: "length", V: int64(-8)}, {K: "path", V: []any{"a"}}},
			ref.Pairs{{K: "length", V: int64(16)}, {K: "path", V: []any{"b"}}}})
	}},
}

func build(tor *ref.Tor) (info, top ref.Pairs) {
	if tor.Single {
		info = append(info, ref.KV{K: "length", V: tor.Files[0].Len})
	} else {
		var l []any
		for _, f := range tor.Files {
			var p []any
			for _, e := range f.Path {
				p = append(p, e)
			}
			l = append(l, ref.Pairs{{K: "length", V: f.Len}, {K: "path", V: p}})
		}
		info = append(info, ref.KV{K: "files", V: l})
	}
	info = append(info, ref.KV{K: "name", V: tor.Name}, ref.KV{K: "piece length", V: tor.PieceLen}, ref.KV{K: "pieces", V: tor.Hashes})
	top = ref.Pairs{{K: "announce", V: "http://t/a"}, {K: "info", V: nil}}
	return
}

func defects(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 20; n++ {
		tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 5})
		info, top := build(tor)
		d := defectList[(i*20+n)%len(defectList)]
		must := d.must
		names := d.name
		d.do(t, &info, &top)
		if r.IntN(3) == 0 {
			// Another defect, which may undo the first
			d2 := defectList[r.IntN(len(defectList))]
			d2.do(t, &info, &top)
			must = false
			names += ", " + d2.name
		}
		if get(&top, "info") == nil && d.name != "no info" {
			set(&top, "info", info)
		}
		for k := range top {
			if top[k].V == nil {
				top[k].V = info
			}
		}
		raw := ref.Enc(top)
		if r.IntN(4) == 0 {
			// What may be there too does not make up for it
			for _, kv := range []ref.KV{
				{K: "announce-list", V: []any{[]any{"http://t/b"}}}, {K: "url-list", V: []any{"http://t/c"}}, {K: "nodes", V: []any{[]any{"t", int64(1)}}},
				{K: "comment", V: "x"}, {K: "creation date", V: int64(1)}, {K: "name", V: "n"}, {K: "pieces", V: "12345678901234567890"}, {K: "length", V: int64(1)}} {
				if r.IntN(2) == 0 && get(&top, kv.K) == nil {
					set(&top, kv.K, kv.V)
				}
			}
			raw = ref.Enc(top)
		}
		if n == 0 {
			t.Sample("%s: %q", names, raw)
		}
		open(t, raw, must, names)
	}
}

// empty makes torrents without a single byte, in which nothing needs a hash, so
// that each field has to be missed on its own.
func empty(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 20; n++ {
		file := func(k int) ref.Pairs {
			return ref.Pairs{{K: "length", V: int64(0)}, {K: "path", V: []any{"d", fmt.Sprint(k)}}}
		}
		info := ref.Pairs{{K: "name", V: "n"}, {K: "piece length", V: 1 + r.Int64N(1<<20)}, {K: "pieces", V: ""}}
		var l []any
		single := r.IntN(3) == 0
		if single {
			info = append(ref.Pairs{{K: "length", V: int64(0)}}, info...)
		} else {
			for k := 1 + r.IntN(4); k > 0; k-- {
				l = append(l, file(k))
			}
		}
		what := ""
		pick := 0
		if l != nil {
			pick = r.IntN(len(l))
		}
		bad := func(f ref.Pairs) { l[pick] = f }
		switch k := r.IntN(12); {
		case k == 0:
			del(&info, "name")
			what = "no name"
		case k == 1:
			del(&info, "piece length")
			what = "no piece length"
		case k == 2:
			del(&info, "pieces")
			what = "no pieces"
		case k == 3:
			set(&info, "pieces", badType(t, "string"))
			what = "pieces of another type"
		case k == 4 && single:
			del(&info, "length")
			what = "no length"
		case single:
			what = "length of another type"
			set(&info, "length", badType(t, "int"))
		case k == 4:
			l = nil
			what = "no files"
		case k == 5:
			bad(ref.Pairs{{K: "path", V: []any{"d"}}})
			what = "file without length"
		case k == 6:
			bad(ref.Pairs{{K: "length", V: badType(t, "int")}, {K: "path", V: []any{"d"}}})
			what = "file length of another type"
		case k == 7:
			bad(ref.Pairs{{K: "length", V: int64(0)}})
			what = "file without path"
		case k == 8:
			bad(ref.Pairs{{K: "length", V: int64(0)}, {K: "path", V: badType(t, "list")}})
			what = "file path of another type"
		case k == 9:
			bad(ref.Pairs{{K: "length", V: int64(0)}, {K: "path", V: []any{}}})
			what = "empty path"
		case k == 10:
			p := []any{"d", "e", "f"}
			p[r.IntN(3)] = badType(t, "string")
			bad(ref.Pairs{{K: "length", V: int64(0)}, {K: "path", V: p}})
			what = "path element of another type"
		default:
			l[pick] = badType(t, "dict")
			what = "file of another type"
		}
		switch {
		case single:
		case what == "no files" && r.IntN(2) == 0:
			set(&info, "files", badType(t, "list"))
		case what != "no files":
			info = append(ref.Pairs{{K: "files", V: l}}, info...)
		}
		raw := ref.Enc(ref.Pairs{{K: "announce", V: "http://t/a"}, {K: "info", V: info}})
		if n == 0 {
			t.Sample("nothing to hash, %s: %q", what, raw)
		}
		t.Event("nothing to hash", 1)
		open(t, raw, true, what+", and no byte in the torrent")
	}
}

func open(t *mon.T, raw []byte, must bool, what string) {
	t.Key(raw)
	path := filepath.Join(t.Dir(), "x.torrent")
	os.WriteFile(path, raw, 0666)
	tor, err := torrent.FromTorrentFile(path, t.Dir())
	if err != nil {
		t.Event("refused", 1)
		if must {
			t.Event("must-refuse refused", 1)
		}
		_ = err.Error()
		return
	}
	t.Event("accepted", 1)
	if must {
		t.Failf("accepted", "accepted, although: %s\n%.1000q", what, raw)
		return
	}
	consistent(t, tor, what, raw)
}

func consistent(t *mon.T, tor *torrent.Torrent, what string, raw []byte) {
	fail := func(f string, a ...any) {
		t.Failf("inconsistent", "accepted (%s), but %s\n%.1000q", what, fmt.Sprintf(f, a...), raw)
	}
	ti := tor.Info()
	_ = tor.String()
	_ = ti.Bencode()
	if ti.PieceLen() < 1 || ti.Length() < 0 || ti.NumPieces() < 0 {
		fail("piece length %d, length %d, %d pieces", ti.PieceLen(), ti.Length(), ti.NumPieces())
		return
	}
	sum := new(big.Int)
	for _, f := range ti.Files() {
		if f.Length() < 0 {
			fail("a file has %d bytes", f.Length())
			return
		}
		sum.Add(sum, big.NewInt(f.Length()))
	}
	if !sum.IsInt64() || sum.Int64() != ti.Length() {
		fail("the files have %v bytes, not %d", sum, ti.Length())
		return
	}
	n := ti.Length() / ti.PieceLen()
	if ti.Length()%ti.PieceLen() != 0 {
		n++
	}
	if n != ti.NumPieces() || int64(len(ti.Hashes())) != 20*n {
		fail("%d bytes in pieces of %d are %d pieces with %d bytes of hashes", ti.Length(), ti.PieceLen(), ti.NumPieces(), len(ti.Hashes()))
		return
	}
	local := map[string]bool{}
	for _, f := range ti.Files() {
		if f.TorPath() == "" || f.LocalPath() == "" || local[f.LocalPath()] {
			fail("a file is %q at %q, which is no path or that of another", f.TorPath(), f.LocalPath())
			return
		}
		local[f.LocalPath()] = true
	}
	total := int64(0)
	for p := int64(0); p < n && p < 5000; p++ {
		_ = ti.PieceHash(p)
		locs, err := ti.PieceLookup(p)
		if err != nil {
			fail("piece %d: %v", p, err)
			return
		}
		s := int64(0)
		for _, l := range locs {
			if l.ReadAmnt() < 0 || l.SeekAmnt() < 0 || l.SeekAmnt()+l.ReadAmnt() > l.Entry.Length() {
				fail("piece %d is %d bytes at %d of a file of %d bytes", p, l.ReadAmnt(), l.SeekAmnt(), l.Entry.Length())
				return
			}
			s += l.ReadAmnt()
		}
		if p < n-1 && s != ti.PieceLen() || p == n-1 && s != ti.LastPieceLen() {
			fail("piece %d has %d bytes", p, s)
			return
		}
		total += s
	}
	if n < 5000 && total != ti.Length() {
		fail("the pieces have %d bytes, the files %d", total, ti.Length())
	}
}

func flips(t *mon.T, i int) {
	r := t.Rng
	for n := 0; n < 20; n++ {
		tor := ref.GenTor(r, ref.TorOpts{Extra: r.IntN(2) == 0, MaxFiles: 4, Announce: "http://t/a"})
		raw := bytes.Clone(tor.Raw)
		_, _, _, _ = ref.Dec(raw)
		for k := 1 + r.IntN(4); k > 0; k-- {
			p := r.IntN(len(raw))
			switch r.IntN(4) {
			case 0:
				raw = raw[:max(1, p)]
			case 1:
				raw[p] = byte(r.Uint32())
			case 2:
				raw[p] = "0123456789ilde:-"[r.IntN(16)]
			default:
				raw = append(raw[:p:p], raw[min(len(raw), p+1+r.IntN(5)):]...)
			}
			if len(raw) == 0 {
				raw = []byte("d")
			}
		}
		_, cl, _, _ := ref.Dec(raw)
		if n == 0 {
			t.Sample("%q", raw)
		}
		open(t, raw, cl == ref.Invalid, "the file is not bencoding")
	}
}

func odd(t *mon.T, i int) {
	dir := t.Dir()
	for _, p := range []string{"", dir, filepath.Join(dir, "missing"), filepath.Join(dir, "a", "b"), "\x00", "/dev/null"} {
		if tor, err := torrent.FromTorrentFile(p, dir); err == nil || tor != nil && err == nil {
			t.Failf("accepted", "%q was opened as a torrent", p)
		} else {
			t.Event("refused", 1)
		}
	}
	for _, raw := range []string{"", "d", "de", "le", "i1e", "0:", "d8:announce0:e", "d8:announce0:4:infodee", "d4:infod4:name1:a12:piece lengthi1e6:pieces0:6:lengthi0eee", "\x00\x00", "<html></html>"} {
		open(t, []byte(raw), true, "no torrent")
	}
	big := bytes.Repeat([]byte("d8:announce"), 300000)
	open(t, big, true, "no torrent")
	t.Sample("missing files, directories, no torrents")
}
