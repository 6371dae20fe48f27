// C10: pieces are written only when they are right, and read as they are.
package main

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"syscall"

	"gotor/torrent"
	"gotor/torrent/fileio"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C10",
		Rule: "Random torrents over prepared files with random content, and histories of piece writes and reads. Written: the right data, and wrong data that is near to right (a bit " +
			"flipped, cut, extended, another piece of the same length, empty, the right data of the last piece padded, shifted by a byte), and data whose hash differs from the recorded one in a bit, a byte, the case of its letters or a few bytes at its ends. Read: every piece, with a buffer of the piece " +
			"length or larger filled with a pattern. Indices out of range. Files of more than 4 GiB (sparse), with pieces at 2 and 4 GiB. After every operation the whole content of all files is compared with the model. Faults: writes fail past a file " +
			"size limit, files cut behind the back of the client, closed files. Distinct by torrent, initial content and history.",
		Assumptions: []string{"SHA-1 collisions do not occur among the inputs", "a buffer given to a read has at least the length of a piece"},
		Scenarios: []mon.Scenario{
			{Name: "histories", Quick: 12000, Thorough: 120000, Shards: 8, Nobody: true, Run: histories},
			{Name: "write-faults", Quick: 4500, Thorough: 45000, Shards: 8, Nobody: true, Run: writeFaults},
			{Name: "read-faults", Quick: 4500, Thorough: 45000, Shards: 8, Nobody: true, Run: readFaults},
			{Name: "huge", Quick: 8, Thorough: 100, Shards: 4, Nobody: true, Run: huge},
			{Name: "large", Quick: 40, Thorough: 500, Shards: 4, Nobody: true, Run: large},
		},
		Require: map[string]int{"pieces written": 5000, "wrong pieces refused": 5000, "pieces read": 10000, "write faults reported": 200, "pieces beyond 4 GiB": 10, "near hashes refused": 2000, "read faults reported": 200, "writes over several files": 1000},
	})
}

type sut struct {
	t     *mon.T
	tor   *ref.Tor
	g     *torrent.Torrent
	fio   *fileio.FileIO
	dir   string
	model []byte
	hist  string
}

func setup(t *mon.T, tor *ref.Tor) *sut {
	s := &sut{t: t, tor: tor, dir: filepath.Join(t.Dir(), "work")}
	s.model = make([]byte, len(tor.Content))
	switch t.Rng.IntN(3) {
	case 0:
	case 1:
		ref.Fill(t.Rng, s.model)
	default: // mostly right
		copy(s.model, tor.Content)
		for k := 0; k < 3; k++ {
			s.model[t.Rng.IntN(len(s.model))] ^= 1
		}
	}
	for f := range tor.Files {
		st := tor.Start(f)
		tor.SaveFile(s.dir, f, s.model[st:st+tor.Files[f].Len])
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	g, err := torrent.FromTorrentFile(file, s.dir)
	if err != nil {
		t.Failf("refused", "well-formed torrent refused: %v\n%s", err, tor.Describe())
		return nil
	}
	s.g = g
	s.fio = fileio.NewFileIO(g.Info())
	if err := s.fio.OCATAll(g.Info().Files()); err != nil {
		t.Failf("error", "preparing the files: %v", err)
		return nil
	}
	t.Cleanup(func() { s.fio.CloseAll() })
	return s
}

func (s *sut) bounds(i int64) (int64, int64) {
	return i * s.tor.PieceLen, min(int64(len(s.model)), (i+1)*s.tor.PieceLen)
}

func (s *sut) fail(fp, f string, a ...any) {
	s.t.Failf(fp, "%s\n%s\nhistory: %s", fmt.Sprintf(f, a...), s.tor.Describe(), s.hist)
}

// disk compares all files with the model.
func (s *sut) disk(after string) bool {
	got, err := s.tor.OnDisk(s.dir)
	if err != nil {
		s.fail("disk", "%s: %v", after, err)
		return false
	}
	if !bytes.Equal(got, s.model) {
		s.fail("disk", "after %s the files differ from the model: %s", after, ref.DiffBytes(s.model, got))
		return false
	}
	return true
}

func (s *sut) segments(i int64) int {
	a, b := s.bounds(i)
	n := 0
	for f := range s.tor.Files {
		st := s.tor.Start(f)
		if s.tor.Files[f].Len > 0 && st < b && st+s.tor.Files[f].Len > a {
			n++
		}
	}
	return n
}

func (s *sut) writeRight(i int64) bool {
	a, b := s.bounds(i)
	data := bytes.Clone(s.tor.Content[a:b])
	if s.tor.Missed[i] {
		s.hist += fmt.Sprintf("write %d, whose hash is not the recorded one; ", i)
		if n, err := s.fio.WritePiece(i, data); err == nil {
			s.fail("accepted", "data with a hash near to the recorded one (%x, recorded %x) was written as piece %d (%d bytes)", sha1.Sum(data), s.tor.Hashes[20*i:20*i+20], i, n)
			return false
		}
		s.t.Event("near hashes refused", 1)
		return true
	}
	s.hist += fmt.Sprintf("write %d; ", i)
	n, err := s.fio.WritePiece(i, data)
	if err != nil || n != b-a {
		s.fail("write", "writing piece %d (%d bytes): %d bytes, %v", i, b-a, n, err)
		return false
	}
	if !bytes.Equal(data, s.tor.Content[a:b]) {
		s.fail("write", "writing piece %d changed the data given", i)
		return false
	}
	copy(s.model[a:], data)
	s.t.Event("pieces written", 1)
	if s.segments(i) > 1 {
		s.t.Event("writes over several files", 1)
	}
	return true
}

func (s *sut) writeWrong(i int64) bool {
	r := s.t.Rng
	a, b := s.bounds(i)
	right := s.tor.Content[a:b]
	data := bytes.Clone(right)
	what := ""
	switch r.IntN(8) {
	case 0:
		what = "empty"
		data = nil
	case 1:
		what = "cut"
		data = data[:r.IntN(len(data))]
	case 2:
		what = "extended"
		data = append(data, make([]byte, 1+r.IntN(20))...)
	case 3:
		what = "padded"
		data = append(data, make([]byte, s.tor.PieceLen)...)
	case 4:
		what = "another piece"
		x, y := s.bounds(r.Int64N(s.tor.NumPieces()))
		data = bytes.Clone(s.tor.Content[x:y])
	case 5:
		what = "shifted"
		data = append([]byte{0}, data[:len(data)-1]...)
	case 6:
		what = "zeros"
		data = make([]byte, len(data))
	default:
		what = "flipped"
		data[r.IntN(len(data))] ^= 1 << r.IntN(8)
	}
	if bytes.Equal(data, right) {
		return true
	}
	s.hist += fmt.Sprintf("write %d %s; ", i, what)
	n, err := s.fio.WritePiece(i, data)
	if err == nil {
		s.fail("accepted", "wrong data (%s) was written as piece %d (%d bytes)", what, i, n)
		return false
	}
	s.t.Event("wrong pieces refused", 1)
	return true
}

func (s *sut) read(i int64) bool {
	a, b := s.bounds(i)
	extra := int64(s.t.Rng.IntN(3) * 7)
	buf := bytes.Repeat([]byte{0xcb}, int(s.tor.PieceLen+extra))
	s.hist += fmt.Sprintf("read %d; ", i)
	n, err := s.fio.ReadPiece(i, buf)
	if err != nil || n != b-a {
		s.fail("read", "reading piece %d (%d bytes): %d bytes, %v", i, b-a, n, err)
		return false
	}
	if !bytes.Equal(buf[:n], s.model[a:b]) {
		s.fail("read", "piece %d: %s", i, ref.DiffBytes(s.model[a:b], buf[:n]))
		return false
	}
	for _, c := range buf[n:] {
		if c != 0xcb {
			s.fail("read", "reading piece %d wrote past its end", i)
			return false
		}
	}
	s.t.Event("pieces read", 1)
	return true
}

func (s *sut) outside() bool {
	n := s.tor.NumPieces()
	for _, i := range []int64{-1, n, n + 1, 1 << 40, -1 << 62} {
		if k, err := s.fio.ReadPiece(i, make([]byte, s.tor.PieceLen)); err == nil {
			s.fail("outside", "piece %d of %d was read (%d bytes)", i, n, k)
			return false
		}
		if k, err := s.fio.WritePiece(i, s.tor.Piece(0)); err == nil {
			s.fail("outside", "piece %d of %d was written (%d bytes)", i, n, k)
			return false
		}
	}
	return true
}

func histories(t *mon.T, i int) {
	s := setup(t, ref.GenTor(t.Rng, ref.TorOpts{NearMiss: 3}))
	if s == nil {
		return
	}
	run(s, 12)
}

func large(t *mon.T, i int) {
	if i%20 == 0 {
		if s := setup(t, ref.GenTor(t.Rng, ref.TorOpts{PieceLen: 1<<(21+t.Rng.IntN(4)) + t.Rng.Int64N(3) - 1, MaxFiles: 4, MaxLen: 9 << 20, MinTotal: 4 << 20, NearMiss: 3})); s != nil {
			run(s, 6)
		}
		return
	}
	s := setup(t, ref.GenTor(t.Rng, ref.TorOpts{PieceLen: 16384 << t.Rng.IntN(7), MaxFiles: 20, MaxLen: 2 << 20, MinTotal: 1 << 20, NearMiss: 3}))
	if s == nil {
		return
	}
	run(s, 6)
}

// huge has files of more than 4 GiB, which are zeros except for a few pieces.
func huge(t *mon.T, i int) {
	r := t.Rng
	s := ref.GenSparse(r, "http://127.0.0.1:1/a")
	dir := filepath.Join(t.Dir(), "work")
	have := map[int64]bool{}
	for _, p := range s.Odd {
		if r.IntN(4) == 0 {
			have[p] = true
		}
	}
	s.Lay(dir, have)
	file := filepath.Join(t.Dir(), "x.torrent")
	s.Save(file)
	g, err := torrent.FromTorrentFile(file, dir)
	if err != nil {
		t.Failf("refused", "well-formed torrent refused: %v\n%s", err, s.Describe())
		return
	}
	fio := fileio.NewFileIO(g.Info())
	defer fio.CloseAll()
	if err := fio.OCATAll(g.Info().Files()); err != nil {
		t.Failf("error", "preparing the files: %v", err)
		return
	}
	t.Key(s.Raw, fmt.Sprint(have))
	t.Sample("%s", s.Describe())
	buf := make([]byte, s.PieceLen+5)
	zero := make([]byte, s.PieceLen)
	for k, at := range r.Perm(3 * len(s.Odd)) {
		p := s.Odd[at%len(s.Odd)]
		if r.IntN(8) == 0 {
			p = r.Int64N(s.NumPieces())
		}
		want := zero[:min(s.PieceLen, s.Total()-p*s.PieceLen)]
		if have[p] {
			want = s.Data[p]
		}
		data, odd := s.Data[p]
		if !odd {
			data = want
		}
		what := fmt.Sprintf("%s: operation %d, piece %d (byte %d)", s.Describe(), k, p, p*s.PieceLen)
		switch r.IntN(4) {
		case 0:
			n, err := fio.ReadPiece(p, buf)
			if err != nil || !bytes.Equal(buf[:n], want) {
				t.Failf("read", "%s: read: %d bytes, %v: %s", what, n, err, ref.DiffBytes(want, buf[:n]))
				return
			}
			t.Event("pieces read", 1)
		case 1:
			b := bytes.Clone(data)
			b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			if n, err := fio.WritePiece(p, b); err == nil {
				t.Failf("accepted", "%s: wrong data was written (%d bytes)", what, n)
				return
			}
			t.Event("wrong pieces refused", 1)
		default:
			n, err := fio.WritePiece(p, bytes.Clone(data))
			if err != nil || n != int64(len(data)) {
				t.Failf("write", "%s: writing it: %d bytes, %v", what, n, err)
				return
			}
			if odd {
				have[p] = true
			}
			t.Event("pieces written", 1)
			if p*s.PieceLen >= 1<<32 {
				t.Event("pieces beyond 4 GiB", 1)
			}
		}
		if k%4 == 0 || k == 3*len(s.Odd)-1 {
			if d := s.Check(dir, have); d != "" {
				t.Failf("disk", "after %s: %s", what, d)
				return
			}
		}
	}
}

func run(s *sut, steps int) {
	t := s.t
	r := t.Rng
	n := s.tor.NumPieces()
	for k := 0; k < steps; k++ {
		ok := true
		i := r.Int64N(n)
		if r.IntN(3) == 0 {
			i = n - 1
		}
		switch r.IntN(8) {
		case 0, 1, 2:
			ok = s.writeRight(i)
		case 3, 4:
			ok = s.writeWrong(i)
		case 5, 6:
			ok = s.read(i)
		default:
			ok = s.outside()
		}
		if !ok || !s.disk("the last operation") {
			return
		}
	}
	t.Key(s.tor.Raw, s.model, s.hist)
	t.Sample("%s; %s", s.tor.Describe(), s.hist)
	for i := int64(0); i < n; i++ {
		if !s.read(i) {
			return
		}
	}
	// All of it, in any order
	for _, i := range r.Perm(int(n)) {
		if !s.writeRight(int64(i)) {
			return
		}
	}
	if !s.disk("all pieces were written") {
		return
	}
	for i := int64(0); i < n; i++ {
		a, b := s.bounds(i)
		if !s.tor.Missed[i] && !bytes.Equal(s.model[a:b], s.tor.Content[a:b]) {
			panic("the model is wrong")
		}
	}
}

func writeFaults(t *mon.T, i int) {
	signal.Ignore(syscall.SIGXFSZ)
	r := t.Rng
	s := setup(t, ref.GenTor(r, ref.TorOpts{}))
	if s == nil {
		return
	}
	tor := s.tor
	p := r.Int64N(tor.NumPieces())
	a, b := s.bounds(p)
	maxLen := int64(0)
	for f := range tor.Files {
		maxLen = max(maxLen, tor.Files[f].Len)
	}
	limit := r.Int64N(maxLen + 1)
	must := false
	for f := range tor.Files {
		st := tor.Start(f)
		lo, hi := max(st, a), min(st+tor.Files[f].Len, b)
		if lo < hi && hi-st > limit {
			must = true
		}
	}
	before := bytes.Clone(s.model)
	var old syscall.Rlimit
	syscall.Getrlimit(1, &old)
	syscall.Setrlimit(1, &syscall.Rlimit{Cur: uint64(limit), Max: old.Max})
	n, err := s.fio.WritePiece(p, bytes.Clone(tor.Content[a:b]))
	if e := syscall.Setrlimit(1, &old); e != nil {
		panic(e)
	}
	t.Key(tor.Raw, p, limit)
	t.Sample("%s: piece %d is written, writes fail at offset %d", tor.Describe(), p, limit)
	if must && err == nil || !must && (err != nil || n != b-a) {
		s.fail("fault-hidden", "writing piece %d with a file size limit of %d must fail: %v; %d bytes, %v", p, limit, must, n, err)
		return
	}
	if must {
		t.Event("write faults reported", 1)
	}
	// Nothing but the piece may be touched
	got, e := tor.OnDisk(s.dir)
	if e != nil {
		s.fail("disk", "%v", e)
		return
	}
	for k := range got {
		in := int64(k) >= a && int64(k) < b
		if got[k] != before[k] && !(in && got[k] == tor.Content[k]) {
			s.fail("disk", "byte %d was changed by a write of piece %d that failed", k, p)
			return
		}
	}
	copy(s.model, got)
	if !s.read(p) || !s.writeRight(p) || !s.disk("the piece was written again") {
		return
	}
}

func readFaults(t *mon.T, i int) {
	r := t.Rng
	s := setup(t, ref.GenTor(r, ref.TorOpts{}))
	if s == nil {
		return
	}
	tor := s.tor
	if r.IntN(4) == 0 {
		// closed files
		if err := s.fio.CloseAll(); err != nil {
			s.fail("error", "closing: %v", err)
			return
		}
		for p := int64(0); p < tor.NumPieces(); p++ {
			if n, err := s.fio.ReadPiece(p, make([]byte, tor.PieceLen)); err == nil {
				s.fail("fault-hidden", "piece %d was read (%d bytes) from closed files", p, n)
				return
			}
			if n, err := s.fio.WritePiece(p, tor.Piece(p)); err == nil {
				s.fail("fault-hidden", "piece %d was written (%d bytes) to closed files", p, n)
				return
			}
		}
		t.Event("read faults reported", 1)
		return
	}
	f := r.IntN(len(tor.Files))
	if tor.Files[f].Len == 0 {
		return
	}
	cut := r.Int64N(tor.Files[f].Len)
	if err := os.Truncate(tor.LocalPath(s.dir, f), cut); err != nil {
		panic(err)
	}
	t.Key(tor.Raw, f, cut)
	t.Sample("%s: file %d is cut to %d bytes", tor.Describe(), f, cut)
	lost := tor.Start(f) + cut
	end := tor.Start(f) + tor.Files[f].Len
	for p := int64(0); p < tor.NumPieces(); p++ {
		a, b := s.bounds(p)
		if b <= lost || a >= end {
			if !s.read(p) {
				return
			}
			continue
		}
		if n, err := s.fio.ReadPiece(p, make([]byte, tor.PieceLen)); err == nil {
			s.fail("fault-hidden", "piece %d [%d,%d) was read (%d bytes) although the bytes [%d,%d) are gone", p, a, b, n, lost, end)
			return
		}
		t.Event("read faults reported", 1)
	}
}
