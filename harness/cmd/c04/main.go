// C04: well-formed torrent files are read faithfully.
package main

import (
	"fmt"
	"path/filepath"
	"strings"
	"time"

	"gotor/torrent"
	"gotor/torrent/info"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C04",
		Rule: "Random well-formed torrent files (single and multi file, names with spaces, dots, backslashes and bytes that are no UTF-8, and of up to 70 kB, in up to 300 directories, empty " +
			"files, lengths at the edges of pieces, further keys), several working directories, and torrents with up to 400000 pieces and file " +
			"lengths beyond 2^40. Half of the torrent files replace one that was read before. Distinct by the bytes of the torrent file.",
		Assumptions: []string{"the keys are in order, all paths differ, and no file is also a directory"},
		Scenarios: []mon.Scenario{
			{Name: "random", Quick: 12000, Thorough: 120000, Shards: 8, Nobody: true, Run: random},
			{Name: "large", Quick: 36, Thorough: 360, Shards: 8, Nobody: true, Run: large, CPUSec: 40},
		},
		Require: map[string]int{"torrents compared": 1500, "piece hashes compared": 10000, "empty files": 100},
	})
}

func random(t *mon.T, i int) {
	r := t.Rng
	long := []int{0, 0, 0, 0, 300, 3000, 70000}[r.IntN(7)]
	files, deep := 1+r.IntN(20), []int{0, 0, 0, 300}[r.IntN(4)]
	if long > 0 && deep > 0 {
		long, files = min(long, 3000), 2
	} else if long > 3000 {
		files = 3
	}
	tor := ref.GenTor(r, ref.TorOpts{Long: long, Deep: deep,
		Announce: []string{"http://tracker.example:6969/announce", "", "udp://x", "http://t/a?key=v&info_hash=", ref.Str(r, 5)}[r.IntN(5)],
		MaxFiles: files, Extra: r.IntN(2) == 0, MaxPiece: 1 << r.IntN(12), MaxLen: 3000})
	if r.IntN(30) == 0 {
		tor.Announce = strings.Repeat("x", 300<<r.IntN(9))
		tor.Finish(r, ref.TorOpts{})
	}
	wd := []string{"", ".", t.Dir(), t.Dir() + "/", "a/b", "./a", "/", "a//b"}[r.IntN(8)]
	path := tor.Save(filepath.Join(t.Dir(), "x.torrent"))
	if r.IntN(2) == 0 { // the same name as that of many others
		path = tor.Save(t.Shared("x.torrent"))
	}
	t.Key(tor.Raw)
	t.Sample("%.3000s", tor.Describe())
	got, err := torrent.FromTorrentFile(path, wd)
	if err != nil {
		t.Failf("refused", "a well-formed torrent is refused: %v\n%s\n%.500q", err, tor.Describe(), tor.Raw)
		return
	}
	t.Event("torrents compared", 1)
	if got.Announce() != tor.Announce {
		t.Failf("announce", "announce %q, want %q", got.Announce(), tor.Announce)
	}
	compare(t, tor, got.Info(), wd)

	// What the user is shown
	s := got.String()
	for _, part := range []string{tor.Name, tor.Announce, fmt.Sprintf("%x", tor.Infohash), fmt.Sprint(tor.NumPieces()), fmt.Sprint(tor.Total())} {
		if !strings.Contains(s, part) {
			t.Failf("summary", "the summary does not contain %q:\n%s", part, s)
		}
	}
	if len(tor.Files) > 1 {
		for _, f := range tor.Files {
			if !strings.Contains(s, strings.Join(f.Path, "/")) {
				t.Failf("summary", "the summary does not contain the file %q:\n%s", f.Path, s)
			}
		}
	}
}

func compare(t *mon.T, tor *ref.Tor, ti *info.TorInfo, wd string) {
	num := func(what string, got, want int64) {
		if got != want {
			t.Failf(what, "%s is %d, want %d\n%s", what, got, want, tor.Describe())
		}
	}
	if ti.Name() != tor.Name {
		t.Failf("name", "name %q, want %q", ti.Name(), tor.Name)
	}
	num("piece length", ti.PieceLen(), tor.PieceLen)
	num("number of pieces", ti.NumPieces(), tor.NumPieces())
	num("length", ti.Length(), tor.Total())
	num("length of the last piece", ti.LastPieceLen(), tor.Total()-(tor.NumPieces()-1)*tor.PieceLen)
	if tor.Single && !ti.IsSingle() || len(tor.Files) > 1 && ti.IsSingle() {
		t.Failf("single", "IsSingle is %v for %s", ti.IsSingle(), tor.Describe())
	}
	if ti.Hashes() != tor.Hashes {
		t.Failf("hashes", "the piece hashes differ")
	}
	for i := int64(0); i < tor.NumPieces() && !t.Failed(); i++ {
		if ti.PieceHash(i) != tor.Hashes[20*i:20*i+20] {
			t.Failf("piece-hash", "hash of piece %d is %x, want %x", i, ti.PieceHash(i), tor.Hashes[20*i:20*i+20])
		}
		t.Event("piece hashes compared", 1)
	}
	fl := ti.Files()
	num("number of files", int64(len(fl)), int64(len(tor.Files)))
	for i := 0; i < len(fl) && i < len(tor.Files) && !t.Failed(); i++ {
		num("length of file", fl[i].Length(), tor.Files[i].Len)
		if tor.Files[i].Len == 0 {
			t.Event("empty files", 1)
		}
		if want := strings.Join(tor.Files[i].Path, "/"); fl[i].TorPath() != want {
			t.Failf("path", "path of file %d is %q, want %q", i, fl[i].TorPath(), want)
		}
		want := tor.LocalPath(wd, i)
		if filepath.Clean(fl[i].LocalPath()) != filepath.Clean(want) {
			t.Failf("local-path", "local path of file %d is %q, want %q", i, fl[i].LocalPath(), want)
		}
	}
}

func large(t *mon.T, i int) {
	r := t.Rng
	tor := &ref.Tor{Name: "large", Announce: "http://t/a"}
	var n int64
	switch i % 4 {
	case 0: // one file of many pieces
		n = 200000 + r.Int64N(200000)
		tor.PieceLen = 16384
		tor.Single = true
		tor.Files = []ref.File{{Path: []string{"large"}, Len: n*tor.PieceLen - r.Int64N(tor.PieceLen)}}
	case 1: // many files
		tor.PieceLen = 16384
		for k := 0; k < 20000; k++ {
			tor.Files = append(tor.Files, ref.File{Path: []string{"d", fmt.Sprintf("%d", k)}, Len: ref.FileLen(r, 16384, 100000)})
		}
		n = tor.NumPieces()
	case 2: // lengths that do not fit in 32 bits
		tor.PieceLen = []int64{1 << 20, 1<<24 + 1, 1<<31 - 1, 1 << 30}[r.IntN(4)]
		for k := 0; k < 5; k++ {
			tor.Files = append(tor.Files, ref.File{Path: []string{fmt.Sprint(k)}, Len: []int64{1 << 32, 1<<32 - 1, 1<<31 + 5, 1<<33 + r.Int64N(1<<33), 0}[r.IntN(5)] + r.Int64N(3)})
		}
		if tor.Total() == 0 {
			tor.Files[0].Len = 1 << 32
		}
		n = tor.NumPieces()
	default: // one huge file among small ones
		tor.PieceLen = 1<<24 - r.Int64N(3)
		tor.Files = []ref.File{{Path: []string{"a"}, Len: 3}, {Path: []string{"b"}, Len: 1<<41 + r.Int64N(1<<20)}, {Path: []string{"c", "d"}, Len: 1}}
		n = tor.NumPieces()
	}
	h := make([]byte, 20*n)
	ref.Fill(r, h)
	tor.Hashes = string(h)
	fd := ref.Pairs{}
	if tor.Single {
		fd = append(fd, ref.KV{"length", tor.Files[0].Len})
	} else {
		var l []any
		for _, f := range tor.Files {
			var p []any
			for _, e := range f.Path {
				p = append(p, e)
			}
			l = append(l, ref.Pairs{{"length", f.Len}, {"path", p}})
		}
		fd = append(fd, ref.KV{"files", l})
	}
	fd = append(fd, ref.KV{"name", tor.Name}, ref.KV{"piece length", tor.PieceLen}, ref.KV{"pieces", tor.Hashes})
	tor.Raw = ref.Enc(ref.Pairs{{"announce", tor.Announce}, {"info", fd}})
	path := tor.Save(filepath.Join(t.Dir(), "x.torrent"))
	t.Key(tor.Raw)
	t.Sample("%d files, %d pieces of %d", len(tor.Files), n, tor.PieceLen)
	start := time.Now()
	got, err := torrent.FromTorrentFile(path, "/w")
	if err != nil {
		t.Failf("refused", "a well-formed torrent is refused: %v", err)
		return
	}
	t.Event("torrents compared", 1)
	t.Event("ms spent opening large torrents", int(time.Since(start).Milliseconds()))
	compare(t, tor, got.Info(), "/w")
	// Every piece is somewhere
	for k := int64(0); k < n && !t.Failed(); k += 1 + n/5000 {
		locs, err := got.Info().PieceLookup(k)
		sum := int64(0)
		for _, l := range locs {
			sum += l.ReadAmnt()
		}
		if want := min(tor.PieceLen, tor.Total()-k*tor.PieceLen); err != nil || sum != want {
			t.Failf("piece-locations", "piece %d has %d bytes in the files, want %d (%v)", k, sum, want, err)
		}
	}
}
