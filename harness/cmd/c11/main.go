// C11: concurrent reads and writes of pieces.
package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"

	"gotor/torrent"
	"gotor/torrent/fileio"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C11",
		Rule: "Many goroutines write and read the pieces of one torrent at the same time, under the race detector, while files are moved. Monitors: a piece read has, for each of its parts in a file, " +
			"all of the old or all of the new bytes; a read that starts after a write was acknowledged sees it; wrong data is refused; in the end the files, at the place they were moved to, " +
			"have exactly what was acknowledged. Distinct by the torrent and the order in which writes and reads met (the observed states of the pieces).",
		Assumptions: []string{"the set of files does not change while pieces are read and written"},
		Scenarios: []mon.Scenario{
			{Name: "small", Quick: 600, Thorough: 15000, Shards: 3, Nobody: true, Run: func(t *mon.T, i int) {
				run(t, ref.GenTor(t.Rng, ref.TorOpts{MaxPiece: 200, MinTotal: 400}))
			}},
			{Name: "large", Quick: 60, Thorough: 1500, Shards: 2, Nobody: true, Run: func(t *mon.T, i int) {
				run(t, ref.GenTor(t.Rng, ref.TorOpts{PieceLen: 65536 << t.Rng.IntN(5), MaxFiles: 4, MaxLen: 2 << 20, MinTotal: 1 << 20}))
			}},
		},
		Require: map[string]int{"reads": 5000, "writes acknowledged": 1000, "old state read": 500, "new state read": 500, "reads after an acknowledged write": 500, "files moved": 200, "moves that cannot work": 200, "moves to where it is": 100},
	})
}

type seg struct{ a, b int64 } // of the content

func run(t *mon.T, tor *ref.Tor) {
	r := t.Rng
	dir := filepath.Join(t.Dir(), "work")
	old := make([]byte, len(tor.Content))
	for i := range old {
		old[i] = ^tor.Content[i] // differs everywhere
	}
	for f := range tor.Files {
		st := tor.Start(f)
		tor.SaveFile(dir, f, old[st:st+tor.Files[f].Len])
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	g, err := torrent.FromTorrentFile(file, dir)
	if err != nil {
		t.Failf("refused", "well-formed torrent refused: %v\n%s", err, tor.Describe())
		return
	}
	fio := fileio.NewFileIO(g.Info())
	if err := fio.OCATAll(g.Info().Files()); err != nil {
		t.Failf("error", "preparing the files: %v", err)
		return
	}
	defer fio.CloseAll()

	n := tor.NumPieces()
	segs := make([][]seg, n)
	for p := int64(0); p < n; p++ {
		a, b := p*tor.PieceLen, min(int64(len(old)), (p+1)*tor.PieceLen)
		for f := range tor.Files {
			st := tor.Start(f)
			lo, hi := max(st, a), min(st+tor.Files[f].Len, b)
			if lo < hi {
				segs[p] = append(segs[p], seg{lo, hi})
			}
		}
	}

	acked := make([]atomic.Bool, n)
	var wg sync.WaitGroup
	var reads, olds, news, after, acks, refused, moved, failedMoves, onto atomic.Int64
	start := make(chan struct{})
	var writersLeft atomic.Int64
	nw, nr := 1+r.IntN(4), 2+r.IntN(4)
	writersLeft.Store(int64(nw))

	for w := 0; w < nw; w++ {
		order := r.Perm(int(n))
		if len(order) > 400 {
			order = order[:400]
		}
		bad := r.IntN(4) == 0
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer writersLeft.Add(-1)
			<-start
			for _, p := range order {
				p := int64(p)
				data := bytes.Clone(tor.Piece(p))
				if bad {
					wrong := bytes.Clone(data)
					wrong[len(wrong)/2] ^= 1
					if _, err := fio.WritePiece(p, wrong); err == nil {
						t.Failf("accepted", "wrong data was written as piece %d\n%s", p, tor.Describe())
						return
					}
					refused.Add(1)
				}
				k, err := fio.WritePiece(p, data)
				if err != nil || k != int64(len(data)) {
					t.Failf("write", "writing piece %d: %d bytes, %v\n%s", p, k, err, tor.Describe())
					return
				}
				acked[p].Store(true)
				acks.Add(1)
			}
		}()
	}
	hist := make([]uint64, nr)
	for q := 0; q < nr; q++ {
		order := r.Perm(int(n))
		if len(order) > 400 {
			order = order[:400]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			buf := make([]byte, tor.PieceLen)
			<-start
			for round := 0; round < 60; round++ {
				last := writersLeft.Load() == 0
				for _, p := range order {
					p := int64(p)
					was := acked[p].Load()
					k, err := fio.ReadPiece(p, buf)
					if err != nil || k != int64(len(tor.Piece(p))) {
						t.Failf("read", "reading piece %d: %d bytes, %v\n%s", p, k, err, tor.Describe())
						return
					}
					reads.Add(1)
					for si, s := range segs[p] {
						off := s.a - p*tor.PieceLen
						got := buf[off : off+s.b-s.a]
						isNew := bytes.Equal(got, tor.Content[s.a:s.b])
						isOld := bytes.Equal(got, old[s.a:s.b])
						if !isNew && !isOld {
							t.Failf("torn", "piece %d, part %d: neither the old nor the new bytes\n%s", p, si, tor.Describe())
							return
						}
						if was && !isNew {
							t.Failf("stale", "piece %d, part %d: the old bytes, after the write was acknowledged\n%s", p, si, tor.Describe())
							return
						}
						if isNew {
							news.Add(1)
							hist[q] = hist[q]*31 + 1
						} else {
							olds.Add(1)
							hist[q] = hist[q]*31 + 2
						}
					}
					if was {
						after.Add(1)
					}
				}
				if last {
					return
				}
			}
		}()
	}
	place := make([]string, len(tor.Files))
	for f := range place {
		place[f] = tor.LocalPath(dir, f)
	}
	if r.IntN(2) == 0 {
		wg.Add(1)
		victims := r.Perm(len(tor.Files))
		tries, stay := make([]int, len(victims)), make([]bool, len(victims))
		for f := range tries {
			tries[f], stay[f] = r.IntN(3), r.IntN(3) == 0
		}
		os.Mkdir(filepath.Join(t.Dir(), "moved"), 0777)
		go func() {
			defer wg.Done()
			<-start
			for _, f := range victims {
				to := filepath.Join(t.Dir(), "moved", fmt.Sprint(f))
				for k := tries[f]; k > 0; k-- {
					// Moves that cannot work: the file stays, and stays usable
					if err := fio.Move(place[f], filepath.Join(t.Dir(), "no such directory", "x")); err == nil {
						t.Failf("move", "a file was moved into a directory that does not exist")
						return
					}
					failedMoves.Add(1)
				}
				if stay[f] || tries[f] > 0 { // to where it is
					fio.Move(place[f], place[f])
					onto.Add(1)
				}
				if stay[f] {
					continue
				}
				if err := fio.Move(place[f], to); err != nil {
					t.Failf("move", "moving %q: %v", place[f], err)
					return
				}
				place[f] = to
				moved.Add(1)
			}
			if err := fio.Move(filepath.Join(dir, "no such file"), filepath.Join(dir, "x")); err == nil {
				t.Failf("move", "a file that is not of the torrent was moved")
			}
		}()
	}
	close(start)
	wg.Wait()
	t.Event("reads", int(reads.Load()))
	t.Event("old state read", int(olds.Load()))
	t.Event("new state read", int(news.Load()))
	t.Event("reads after an acknowledged write", int(after.Load()))
	t.Event("writes acknowledged", int(acks.Load()))
	t.Event("wrong pieces refused", int(refused.Load()))
	t.Event("files moved", int(moved.Load()))
	t.Event("moves to where it is", int(onto.Load()))
	t.Event("moves that cannot work", int(failedMoves.Load()))
	t.Key(tor.Raw, hist)
	t.Sample("%s: %d writers, %d readers; %d reads, of the parts %d old and %d new, %d files moved", tor.Describe(), nw, nr, reads.Load(), olds.Load(), news.Load(), moved.Load())
	if t.Failed() {
		return
	}
	for f := range tor.Files {
		got, err := os.ReadFile(place[f])
		if err != nil {
			t.Failf("lost", "%v", err)
			return
		}
		st := tor.Start(f)
		if int64(len(got)) != tor.Files[f].Len {
			t.Failf("lost", "file %d has %d bytes\n%s", f, len(got), tor.Describe())
			return
		}
		for k := range got {
			p := (st + int64(k)) / tor.PieceLen
			want := old
			if acked[p].Load() {
				want = tor.Content
			}
			if got[k] != want[st+int64(k)] {
				t.Failf("lost", "file %d, byte %d (piece %d, written: %v) is wrong\n%s", f, k, p, acked[p].Load(), tor.Describe())
				return
			}
		}
	}
}
