// C07: the pieces tile the files.
package main

import (
	"fmt"

	"gotor/torrent/filesd"
	"gotor/torrent/info"
	"verifharness/mon"
)

func main() {
	mon.Main(mon.Check{
		ID: "C07",
		Rule: "Random lists of file lengths (empty files at the start, in the middle, in runs and at the end; lengths at the edges of pieces; many tiny " +
			"files in a piece; files of many pieces; lengths and offsets beyond 2^31 and 2^32) and piece lengths from 1 to 2^31-1. The layout is " +
			"compared, for every piece and every file, to the intersection of the intervals [piece*len, ...) and [start of file, ...). " +
			"Distinct by the lengths; non-trivial if a piece spans files or a file spans pieces.",
		Assumptions: []string{"segments of zero bytes are ignored, and so are empty files in the list of files of a piece"},
		Scenarios: []mon.Scenario{
			{Name: "small", Quick: 24000, Thorough: 240000, Shards: 8, Run: small},
			{Name: "all-tiny", Quick: 400, Thorough: 400, Shards: 4, Run: tiny},
			{Name: "big", Quick: 3200, Thorough: 32000, Shards: 8, Run: big},
		},
		Require: map[string]int{"pieces compared": 10000, "pieces in several files": 3000, "empty files": 500},
	})
}

func small(t *mon.T, i int) {
	r := t.Rng
	pl := 1 + r.Int64N(1<<r.IntN(8))
	n := 1 + r.IntN(12)
	var lens []int64
	switch r.IntN(40) {
	case 0, 1, 2, 3:
		n = 1 + r.IntN(120)
	case 4: // very many files in a piece
		pl = 1 + r.Int64N(1<<(4+r.IntN(9)))
		for k := 1 << (6 + r.IntN(7)); k > 0; k-- {
			lens = append(lens, r.Int64N(3))
		}
		for k := r.IntN(1 << r.IntN(12)); k > 0; k-- { // one after another
			lens = append(lens, 0)
		}
		if r.IntN(2) == 0 {
			lens = append(lens, r.Int64N(3*pl))
		}
		if n = 0; r.IntN(2) == 0 {
			n = r.IntN(100)
		}
	}
	for k := 0; k < n; k++ {
		switch r.IntN(9) {
		case 0, 1:
			lens = append(lens, 0)
		case 2:
			lens = append(lens, 1)
		case 3:
			lens = append(lens, pl)
		case 4:
			lens = append(lens, pl*(1+r.Int64N(4)))
		case 5:
			lens = append(lens, max(0, pl*(1+r.Int64N(3))-1+r.Int64N(3)))
		case 6: // up to the end of the piece
			s := int64(0)
			for _, l := range lens {
				s += l
			}
			lens = append(lens, (pl-s%pl)%pl)
		default:
			lens = append(lens, r.Int64N(3*pl+2))
		}
	}
	layout(t, pl, lens)
}

// tiny enumerates all lists of up to 4 lengths from 0 to 4, for the piece lengths 1 to 5
func tiny(t *mon.T, i int) {
	per := (781*5 + 399) / 400
	for k := i * per; k < (i+1)*per && k < 781*5; k++ {
		pl := int64(k%5) + 1
		x := k / 5
		var lens []int64
		for n, c := 0, 1; n <= 4; n, c = n+1, c*5 {
			if x < c {
				for j := 0; j < n; j++ {
					lens = append(lens, int64(x%5))
					x /= 5
				}
				break
			}
			x -= c
		}
		layout(t, pl, lens)
	}
}

func big(t *mon.T, i int) {
	r := t.Rng
	pls := []int64{1 << 14, 1 << 20, 1<<30 + 1, 1<<31 - 1, 65537, 1 << 24}
	pl := pls[r.IntN(len(pls))]
	var lens []int64
	total := int64(0)
	for k := 1 + r.IntN(10); k > 0; k-- {
		var l int64
		switch r.IntN(6) {
		case 0:
			l = 0
		case 1:
			l = 1<<31 - 1 + r.Int64N(3)
		case 2:
			l = 1<<32 - 1 + r.Int64N(3)
		case 3:
			l = pl*r.Int64N(5) + r.Int64N(3)
		case 4:
			l = r.Int64N(1 << (20 + r.IntN(20)))
		default:
			l = r.Int64N(5)
		}
		if (total+l)/pl > 20000 {
			l = r.Int64N(pl)
		}
		total += l
		lens = append(lens, l)
	}
	layout(t, pl, lens)
}

func layout(t *mon.T, pl int64, lens []int64) {
	var base []filesd.EntryBase
	total := int64(0)
	for k, l := range lens {
		base = append(base, filesd.MakeFileEntry(fmt.Sprintf("f%d", k), l))
		total += l
		if l == 0 {
			t.Event("empty files", 1)
		}
	}
	np := (total + pl - 1) / pl
	desc := fmt.Sprintf("piece length %d, files %v", pl, lens)
	if len(lens) > 1 || total > pl {
		t.Key(desc)
	}
	t.Sample("%s", desc)
	fail := func(fp, f string, a ...any) {
		t.Failf(fp, "%s (%s)", fmt.Sprintf(f, a...), desc)
	}
	if got := filesd.CalcNumPieces(base, pl); got != np {
		fail("number-of-pieces", "%d pieces, want %d", got, np)
		return
	}
	fl := filesd.MakeFileList(base, pl)
	if len(fl) != len(lens) {
		fail("file-list", "%d files, want %d", len(fl), len(lens))
		return
	}
	start := make([]int64, len(lens)+1)
	for k, l := range lens {
		start[k+1] = start[k] + l
	}
	for k := range fl {
		if fl[k].Length() != lens[k] || fl[k].TorPath() != base[k].TorPath() {
			fail("file-list", "entry %d is %q of %d bytes", k, fl[k].TorPath(), fl[k].Length())
		}
		if lens[k] == 0 {
			continue
		}
		s, e := start[k], start[k+1]-1
		if fl[k].StartPiece() != s/pl || fl[k].StartPieceOff() != s%pl || fl[k].EndPiece() != e/pl || fl[k].EndPieceOff() != e%pl {
			fail("span", "file %d spans %d+%d to %d+%d, want %d+%d to %d+%d", k, fl[k].StartPiece(), fl[k].StartPieceOff(), fl[k].EndPiece(), fl[k].EndPieceOff(), s/pl, s%pl, e/pl, e%pl)
		}
		// Pieces of this file: the edges and some in the middle
		sp, ep := s/pl, e/pl
		for _, p := range []int64{sp, sp + 1, (sp + ep) / 2, ep - 1, ep} {
			if p < sp || p > ep {
				continue
			}
			lo, hi := max(s, p*pl), min(start[k+1], (p+1)*pl)
			pi, err := fl[k].PieceInfo(p, pl)
			if err != nil || pi.SeekAmnt != lo-s || pi.ReadAmnt != hi-lo {
				fail("piece-info", "piece %d of file %d is at %d for %d (%v), want %d for %d", p, k, pi.SeekAmnt, pi.ReadAmnt, err, lo-s, hi-lo)
			}
		}
		for _, p := range []int64{sp - 1, ep + 1} {
			if pi, err := fl[k].PieceInfo(p, pl); err == nil {
				fail("piece-info", "file %d has nothing of piece %d, but %d bytes are reported", k, p, pi.ReadAmnt)
			}
		}
	}
	if t.Failed() {
		return
	}

	ti, err := info.NewTorInfo("n", pl, string(make([]byte, 20*np)), base)
	if err != nil {
		fail("refused", "refused: %v", err)
		return
	}
	if ti.NumPieces() != np || ti.Length() != total {
		fail("number-of-pieces", "%d pieces and %d bytes, want %d and %d", ti.NumPieces(), ti.Length(), np, total)
	}
	if np > 0 && ti.LastPieceLen() != total-(np-1)*pl {
		fail("last-piece", "the last piece has %d bytes, want %d", ti.LastPieceLen(), total-(np-1)*pl)
	}
	pm, err := info.MakePieceMap(fl, np, pl, total)
	if err != nil || int64(len(pm)) != np {
		fail("piece-map", "%d pieces (%v), want %d", len(pm), err, np)
		return
	}
	for _, p := range []int64{-1, np, np + 1, -1 << 63, 1<<63 - 1} {
		if locs, err := ti.PieceLookup(p); err == nil {
			fail("out-of-bounds", "piece %d does not exist, but has %d locations", p, len(locs))
		}
	}
	step := int64(1)
	if np > 3000 {
		step = np / 1500
	}
	first := 0
	for p := int64(0); p < np && !t.Failed(); p += step {
		t.Event("pieces compared", 1)
		// expected
		lo, hi := p*pl, min((p+1)*pl, total)
		for start[first+1] <= lo {
			first++
		}
		type seg struct {
			file       int
			seek, read int64
		}
		var want []seg
		var files []int
		for k := first; k < len(lens) && start[k] < hi; k++ {
			a, b := max(lo, start[k]), min(hi, start[k+1])
			if a < b {
				want = append(want, seg{k, a - start[k], b - a})
				files = append(files, k)
			}
		}
		if len(want) > 1 {
			t.Event("pieces in several files", 1)
		}
		for what, get := range map[string]func() ([]info.PieceLocation, error){
			"PieceLookup": func() ([]info.PieceLocation, error) { return ti.PieceLookup(p) },
			"PieceMap":    func() ([]info.PieceLocation, error) { return pm[p], nil },
		} {
			locs, err := get()
			if err != nil {
				fail("piece-lookup", "%s(%d): %v", what, p, err)
				return
			}
			var got []seg
			for _, l := range locs {
				if l.ReadAmnt() == 0 {
					continue
				}
				var k int
				fmt.Sscanf(l.Entry.TorPath(), "f%d", &k)
				got = append(got, seg{k, l.SeekAmnt(), l.ReadAmnt()})
				if l.Path() != base[k].LocalPath() {
					fail("piece-lookup", "%s(%d): path %q, want %q", what, p, l.Path(), base[k].LocalPath())
				}
			}
			if fmt.Sprint(got) != fmt.Sprint(want) {
				fail("piece-lookup", "%s(%d) = {file, offset, bytes} %v, want %v", what, p, got, want)
				return
			}
		}
		var gotFiles []int
		for _, e := range fl.GetFiles(p) {
			if e.Length() == 0 {
				continue
			}
			var k int
			fmt.Sscanf(e.TorPath(), "f%d", &k)
			gotFiles = append(gotFiles, k)
		}
		if fmt.Sprint(gotFiles) != fmt.Sprint(files) {
			fail("files-of-piece", "piece %d is in the files %v, want %v", p, gotFiles, files)
		}
	}
	for _, p := range []int64{np, np + 1, np + 1000} {
		for _, e := range fl.GetFiles(p) {
			if e.Length() > 0 {
				fail("files-of-piece", "piece %d does not exist, but is in %q", p, e.TorPath())
			}
		}
	}
}
