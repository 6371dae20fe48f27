// C08: a torrent made from files describes these files.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"gotor/bencode"
	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/torrent/info"
	"gotor/utils"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C08",
		Rule: "Random directories of files (empty ones, lengths at the edges of pieces, nested directories) and piece lengths from 1 byte to beyond 5 MiB, with " +
			"contents around multiples of 5 MiB and of the piece length, some files being symbolic or hard links; thousands of files, and files of more than 4 GiB (sparse); hashes, lengths and paths are compared to an independent computation, the result is " +
			"encoded, read back, and the pieces are read through the file layer. Distinct by lengths and contents.",
		Scenarios: []mon.Scenario{
			{Name: "small", Quick: 4000, Thorough: 40000, Shards: 8, Nobody: true, Run: small},
			{Name: "large", Quick: 72, Thorough: 720, Shards: 8, Nobody: true, Run: large, CPUSec: 90},
			{Name: "many", Quick: 24, Thorough: 240, Shards: 4, Nobody: true, Run: many},
			{Name: "huge", Quick: 2, Thorough: 24, Shards: 2, Nobody: true, Run: huge, CPUSec: 120},
			{Name: "errors", Quick: 60, Thorough: 600, Nobody: true, Run: errs},
			{Name: "segments", Quick: 2400, Thorough: 24000, Run: segments},
		},
		Require: map[string]int{"torrents made": 500, "piece hashes compared": 5000, "pieces read back": 3000, "larger than 5 MiB": 8, "unreadable files": 1000, "larger than 4 GiB": 2, "files that are symbolic links": 1000},
	})
}

func small(t *mon.T, i int) {
	tor := ref.GenTor(t.Rng, ref.TorOpts{MaxFiles: 12, Deep: 9, MaxPiece: 1 << t.Rng.IntN(12), MaxLen: 5000, Announce: "http://t/a"})
	if t.Rng.IntN(5) == 0 && len(tor.Files) > 1 { // some are copies of others
		var data [][]byte
		for f := range tor.Files {
			data = append(data, tor.FileData(f))
		}
		tor.Content = nil
		for f := range tor.Files {
			if g := t.Rng.IntN(2 * (f + 1)); g < f {
				tor.Files[f].Len = tor.Files[g].Len
				data[f] = data[g]
			}
			tor.Content = append(tor.Content, data[f]...)
		}
		if len(tor.Content) == 0 {
			return
		}
		tor.Finish(t.Rng, ref.TorOpts{})
	}
	check(t, tor)
}

const mib = 1 << 20

func large(t *mon.T, i int) {
	r := t.Rng
	pls := []int64{5 * mib, 5*mib - 1, 5*mib + 1, 6 * mib, mib, mib + 1, 3 * mib, 65536, 16384, 65537, 7*mib + 13, 8 * mib, 2*mib + mib/2}
	pl := pls[i%len(pls)]
	tor := &ref.Tor{Name: "n", Announce: "http://t/a", PieceLen: pl}
	lens := []int64{5*mib - 1, 5 * mib, 5*mib + 1, pl, pl - 1, pl + 1, 2*pl + 1, 0, 1, r.Int64N(8 * mib), 10 * mib, (5 * mib / pl) * pl, (5*mib/pl)*pl + 1}
	if i%3 == 0 {
		tor.Single = true
		tor.Files = []ref.File{{Path: []string{"n"}, Len: []int64{5 * mib, 10*mib + 1, 11 * mib, 2*pl + 5, 5*mib + pl, 3 * pl}[r.IntN(6)]}}
	} else {
		for k := 2 + r.IntN(4); k > 0; k-- {
			tor.Files = append(tor.Files, ref.File{Path: []string{"d", fmt.Sprint("f", k)}, Len: lens[r.IntN(len(lens))]})
		}
		if tor.Total() == 0 {
			tor.Files[0].Len = 5*mib + 1
		}
	}
	tor.Content = make([]byte, tor.Total())
	ref.Fill(r, tor.Content)
	tor.Finish(r, ref.TorOpts{})
	if tor.Total() > 5*mib {
		t.Event("larger than 5 MiB", 1)
	}
	check(t, tor)
}

// many has very many files.
func many(t *mon.T, i int) {
	tor := ref.GenTor(t.Rng, ref.TorOpts{MaxFiles: mon.Files(4000), MaxLen: 60, Single: 2, Plain: true, MaxPiece: 300, Announce: "http://t/a"})
	check(t, tor)
}

// huge has files of more than 4 GiB, which are zeros except for a few pieces.
func huge(t *mon.T, i int) {
	s := ref.GenSparse(t.Rng, "http://t/a")
	dir := t.Dir()
	have := map[int64]bool{}
	for _, p := range s.Odd {
		have[p] = true
	}
	s.Lay(dir, have)
	var paths []string
	for _, f := range s.Files {
		paths = append(paths, strings.Join(f.Path, "/"))
	}
	wd := dir
	if len(paths) == 1 && !s.Single {
		wd = filepath.Join(dir, s.Name)
	}
	t.Key(s.Raw)
	t.Sample("%s", s.Describe())
	ti, err := info.CreateTorInfo(paths, wd, s.Name, s.PieceLen)
	if err != nil {
		t.Failf("refused", "CreateTorInfo: %v for %s", err, s.Describe())
		return
	}
	if ti.Length() != s.Total() || ti.NumPieces() != s.NumPieces() {
		t.Failf("metadata", "length %d, %d pieces for %s", ti.Length(), ti.NumPieces(), s.Describe())
		return
	}
	if ti.Hashes() != s.Hashes {
		t.Failf("hash", "a hash is wrong for %s", s.Describe())
		return
	}
	for k, f := range ti.Files() {
		if f.Length() != s.Files[k].Len {
			t.Failf("files", "file %d has %d bytes for %s", k, f.Length(), s.Describe())
		}
	}
	t.Event("larger than 4 GiB", 1)
	t.Event("torrents made", 1)
	fio := fileio.NewFileIO(ti)
	if err := fio.OCATAll(ti.Files()); err != nil {
		t.Failf("files", "%v for %s", err, s.Describe())
		return
	}
	defer fio.CloseAll()
	buf := make([]byte, s.PieceLen)
	for _, p := range s.Odd {
		n, err := fio.ReadPiece(p, buf)
		if err != nil || !bytes.Equal(buf[:n], s.Data[p]) {
			t.Failf("pieces", "piece %d cannot be read (%v) for %s", p, err, s.Describe())
			return
		}
		t.Event("pieces read back", 1)
	}
}

func check(t *mon.T, tor *ref.Tor) {
	dir := t.Dir()
	tor.SaveFiles(dir)
	// Some of the files are reached through symbolic links, or are hard links
	if t.Rng.IntN(3) == 0 {
		store := filepath.Join(dir, ".store")
		os.Mkdir(store, 0777)
		for f := range tor.Files {
			p, q := tor.LocalPath(dir, f), filepath.Join(store, fmt.Sprint(f))
			switch t.Rng.IntN(4) {
			case 0:
				os.Rename(p, q)
				os.Symlink(q, p)
				t.Event("files that are symbolic links", 1)
			case 1:
				os.Rename(p, q)
				if rel, err := filepath.Rel(filepath.Dir(p), q); err == nil {
					os.Symlink(rel, p)
					t.Event("files that are symbolic links", 1)
				}
			case 2:
				os.Link(p, q)
			}
		}
	}
	// Some that are equal are the same
	if t.Rng.IntN(2) == 0 && len(tor.Files) < 30 {
		for f := range tor.Files {
			for g := 0; g < f; g++ {
				if p, q := tor.LocalPath(dir, f), tor.LocalPath(dir, g); bytes.Equal(tor.FileData(f), tor.FileData(g)) && len(tor.FileData(f)) > 0 && t.Rng.IntN(2) == 0 {
					os.Remove(p)
					if t.Rng.IntN(3) == 0 {
						os.Symlink(q, p)
					} else {
						q, _ = filepath.EvalSymlinks(q) // (a link to a symbolic link would be relative to another directory)
						os.Link(q, p)
					}
					t.Event("links to another of the files", 1)
					break
				}
			}
		}
	}
	snap := map[string]string{}
	if tor.Total() < 1<<20 {
		snap = ref.Snapshot(dir)
	}
	var paths []string
	for _, f := range tor.Files {
		paths = append(paths, strings.Join(f.Path, "/"))
	}
	wd := dir
	if len(paths) == 1 && !tor.Single {
		// A list with one path is a single file torrent
		wd = filepath.Join(dir, tor.Name)
	}
	sum := sha1.Sum(tor.Content)
	t.Key(tor.Describe(), sum[:])
	t.Sample("%s", tor.Describe())
	ti, err := info.CreateTorInfo(paths, wd, tor.Name, tor.PieceLen)
	if err != nil {
		t.Failf("refused", "CreateTorInfo: %v for %s", err, tor.Describe())
		return
	}
	t.Event("torrents made", 1)
	if ti.Name() != tor.Name || ti.PieceLen() != tor.PieceLen || ti.Length() != tor.Total() || ti.NumPieces() != tor.NumPieces() {
		t.Failf("metadata", "name %q, piece length %d, length %d, %d pieces for %s", ti.Name(), ti.PieceLen(), ti.Length(), ti.NumPieces(), tor.Describe())
		return
	}
	for p := int64(0); p < tor.NumPieces(); p++ {
		t.Event("piece hashes compared", 1)
		if ti.PieceHash(p) != tor.Hashes[20*p:20*p+20] {
			t.Failf("hash", "hash of piece %d of %d is wrong for %s", p, tor.NumPieces(), tor.Describe())
			return
		}
	}
	fl := ti.Files()
	if len(fl) != len(tor.Files) {
		t.Failf("files", "%d files for %s", len(fl), tor.Describe())
		return
	}
	for k := range fl {
		if fl[k].Length() != tor.Files[k].Len || fl[k].TorPath() != paths[k] || filepath.Clean(fl[k].LocalPath()) != filepath.Join(tor.LocalPath(dir, k)) {
			t.Failf("files", "file %d is %q (%q) of %d bytes for %s", k, fl[k].TorPath(), fl[k].LocalPath(), fl[k].Length(), tor.Describe())
		}
	}
	if tor.Total() < 1<<20 {
		if d := ref.DiffSnapshots(snap, ref.Snapshot(dir)); d != "" {
			t.Failf("modified", "making a torrent changed the files: %s", d)
		}
	}
	// Its pieces are in the files
	readAll := func(what string, ti *info.TorInfo) {
		fio := fileio.NewFileIO(ti)
		if err := fio.OCATAll(ti.Files()); err != nil {
			t.Failf("files", "%s: %v", what, err)
			return
		}
		defer fio.CloseAll()
		buf := make([]byte, tor.PieceLen)
		for p := int64(0); p < tor.NumPieces(); p++ {
			n, err := fio.ReadPiece(p, buf)
			if err != nil || utils.SHA1(buf[:n]) != ti.PieceHash(p) {
				t.Failf("pieces", "%s: piece %d does not match its hash (%v) for %s", what, p, err, tor.Describe())
				return
			}
			t.Event("pieces read back", 1)
		}
	}
	readAll("made", ti)
	// Written and opened again
	enc, err := bencode.Encode(ti.Bencode())
	if err != nil {
		t.Failf("encoding", "%v for %s", err, tor.Describe())
		return
	}
	file := filepath.Join(dir, ".made.torrent")
	os.WriteFile(file, ref.Enc(ref.Pairs{{K: "announce", V: tor.Announce}, {K: "info", V: ref.Raw(enc)}}), 0666)
	if len(paths) == 1 && (strings.Contains(paths[0], "/") || paths[0] != tor.Name) {
		return // the file is not where the torrent says
	}
	back, err := torrent.FromTorrentFile(file, wd)
	if err != nil {
		t.Failf("read-back", "%v for %s", err, tor.Describe())
		return
	}
	sumInfo := sha1.Sum(enc)
	if back.Infohash() != string(sumInfo[:]) || back.Info().Hashes() != tor.Hashes || back.Info().Length() != tor.Total() ||
		back.Info().Name() != tor.Name || back.Info().PieceLen() != tor.PieceLen || len(back.Info().Files()) != len(tor.Files) {
		t.Failf("read-back", "another torrent was read back for %s", tor.Describe())
	}
	for k, f := range back.Info().Files() {
		if f.Length() != tor.Files[k].Len || f.TorPath() != paths[k] || filepath.Clean(f.LocalPath()) != filepath.Join(tor.LocalPath(dir, k)) {
			t.Failf("read-back", "file %d is read back as %q (%q) of %d bytes for %s", k, f.TorPath(), f.LocalPath(), f.Length(), tor.Describe())
		}
	}
	readAll("read back", back.Info())
}

// errs: if a file cannot be read, no torrent is made. What can be read is at
// random places around it, and the piece length is often so large that the
// number of pieces does not give the missing file away.
func errs(t *mon.T, i int) {
	dir := t.Dir()
	r := t.Rng
	for _, d := range []string{dir, filepath.Join(dir, "n")} {
		os.MkdirAll(filepath.Join(d, "sub", "deep"), 0777)
		os.WriteFile(filepath.Join(d, "secret"), []byte("hello"), 0)
		os.Symlink("nowhere", filepath.Join(d, "dangling"))
		os.Symlink("loop", filepath.Join(d, "loop"))
		os.Symlink("sub", filepath.Join(d, "todir"))
		for k := 0; k < 5; k++ {
			b := make([]byte, r.IntN(300))
			ref.Fill(r, b)
			os.WriteFile(filepath.Join(d, fmt.Sprint("f", k)), b, 0666)
		}
		os.WriteFile(filepath.Join(d, "one"), []byte("1"), 0666)
	}
	t.Sample("missing files, directories, broken links among readable files; piece lengths that are not positive")
	bad := []string{"missing", "sub", "sub/deep", ".", "f1/x", "dangling", "loop", "todir", strings.Repeat("x", 300), strings.Repeat("long/", 1000) + "f", "f1\x00"}
	if os.Geteuid() != 0 {
		bad = append(bad, "secret")
	}
	for _, b := range bad {
		var paths []string
		for k := r.IntN(5); k > 0; k-- {
			paths = append(paths, fmt.Sprint("f", k))
		}
		at := r.IntN(len(paths) + 1)
		paths = append(paths[:at:at], append([]string{b}, paths[at:]...)...)
		for _, pl := range []int64{1 + r.Int64N(20), 16384, 1 << 20, 5 << 20, 6 << 20} {
			t.Key(fmt.Sprint(paths), pl)
			t.Event("unreadable files", 1)
			if ti, err := info.CreateTorInfo(paths, dir, "n", pl); err == nil {
				t.Failf("accepted", "CreateTorInfo(%.300q, %d) succeeded with %d pieces, but %.100q is no file that can be read", paths, pl, ti.NumPieces(), b)
			}
		}
	}
	for _, pl := range []int64{0, -1, -16384, -1 << 63, -5 << 20, 1 << 31, 1 << 32, 1 << 46, 1 << 62, 1<<63 - 1} {
		t.Key(pl)
		for _, paths := range [][]string{{"f1"}, {"f1", "one"}, {"one"}} {
			if _, err := info.CreateTorInfo(paths, dir, "n", pl); err == nil {
				t.Failf("accepted", "CreateTorInfo(%q, %d) succeeded", paths, pl)
			}
		}
	}
}

func segments(t *mon.T, i int) {
	r := t.Rng
	data := make([]byte, r.IntN(200))
	ref.Fill(r, data)
	n := 1 + r.Int64N(40)
	t.Key(data, n)
	segs := utils.SegmentData(data, n)
	var all []byte
	var h strings.Builder
	for k, s := range segs {
		if int64(len(s)) != n && (k != len(segs)-1 || len(s) == 0 || int64(len(s)) > n) {
			t.Failf("segments", "segment %d of %d bytes, size %d", k, len(s), n)
		}
		all = append(all, s...)
		sum := sha1.Sum(s)
		h.Write(sum[:])
	}
	if string(all) != string(data) {
		t.Failf("segments", "the segments of %d bytes by %d are not the data", len(data), n)
	}
	if utils.HashSlices(segs) != h.String() {
		t.Failf("hashes", "HashSlices is wrong")
	}
}
