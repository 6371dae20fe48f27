package ref

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"io"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"syscall"
)

// Sparse is a torrent of several GiB, of which only a few pieces are anything
// else than zeros. Its files take hardly any space.
type Sparse struct {
	*Tor // without Content
	Data map[int64][]byte
	Odd  []int64 // the pieces in Data
}

// GenSparse makes a torrent with a file that is longer than 4 GiB.
func GenSparse(r *rand.Rand, announce string) *Sparse {
	t := &Tor{Announce: announce, PieceLen: 4<<20 + r.Int64N(3) - 1}
	s := &Sparse{Tor: t, Data: map[int64][]byte{}}
	t.Name = "n" + fmt.Sprint(r.IntN(1000))
	t.Single = r.IntN(3) == 0
	huge := int64(1)<<32 + 1 + r.Int64N(1<<29)
	if t.Single {
		t.Files = []File{{[]string{t.Name}, huge}}
	} else {
		n := 1 + r.IntN(4)
		at := r.IntN(n)
		for f := 0; f < n; f++ {
			l := r.Int64N(10 << 20)
			if f == at {
				l = huge
			} else if r.IntN(3) == 0 {
				l = 1<<31 - 1 + r.Int64N(3)
			}
			t.Files = append(t.Files, File{[]string{fmt.Sprintf("f%d", f)}, l})
		}
	}
	n := t.NumPieces()
	odd := map[int64]bool{0: true, n - 1: true, n / 2: true, r.Int64N(n): true}
	mark := func(pos int64) {
		if p := pos / t.PieceLen; p >= 0 && p < n {
			odd[p] = true
			odd[min(n-1, p+1)] = true
		}
	}
	mark(1 << 31)
	mark(1 << 32)
	for f := range t.Files {
		st := t.Start(f)
		mark(st)
		if t.Files[f].Len > 1<<31 {
			mark(st + 1<<31)
		}
		if t.Files[f].Len > 1<<32 {
			mark(st + 1<<32)
		}
	}
	zero := make([]byte, t.PieceLen)
	zsum := sha1.Sum(zero)
	var h strings.Builder
	for p := int64(0); p < n; p++ {
		l := min(t.PieceLen, t.Total()-p*t.PieceLen)
		if odd[p] {
			b := make([]byte, l)
			Fill(r, b)
			s.Data[p] = b
			s.Odd = append(s.Odd, p)
			sum := sha1.Sum(b)
			h.Write(sum[:])
			continue
		}
		sum := zsum
		if l != t.PieceLen {
			sum = sha1.Sum(zero[:l])
		}
		h.Write(sum[:])
	}
	t.Hashes = h.String()
	t.Missed = make([]bool, n)
	t.encode(r, TorOpts{})
	return s
}

// Seg is a part of a piece: bytes of a file.
type Seg struct {
	File   int
	Off    int64 // in the file
	Lo, Hi int64 // in the piece
}

// Segs says where a piece is.
func (t *Tor) Segs(p int64) []Seg {
	a, b := p*t.PieceLen, min(t.Total(), (p+1)*t.PieceLen)
	var l []Seg
	st := int64(0)
	for f := range t.Files {
		lo, hi := max(a, st), min(b, st+t.Files[f].Len)
		if lo < hi {
			l = append(l, Seg{f, lo - st, lo - a, hi - a})
		}
		st += t.Files[f].Len
	}
	return l
}

// Lay makes the files, with the pieces given and zeros elsewhere.
func (s *Sparse) Lay(dir string, have map[int64]bool) {
	for f := range s.Files {
		p := s.LocalPath(dir, f)
		os.MkdirAll(filepath.Dir(p), 0777)
		if err := os.WriteFile(p, nil, 0666); err != nil {
			panic(err)
		}
		if err := os.Truncate(p, s.Files[f].Len); err != nil {
			panic(err)
		}
	}
	for p := range have {
		s.put(dir, p, s.Data[p])
	}
}

func (s *Sparse) put(dir string, p int64, b []byte) {
	for _, g := range s.Segs(p) {
		w, err := os.OpenFile(s.LocalPath(dir, g.File), os.O_WRONLY, 0)
		if err != nil {
			panic(err)
		}
		if _, err := w.WriteAt(b[g.Lo:g.Hi], g.Off); err != nil {
			panic(err)
		}
		w.Close()
	}
}

// Check says how the files differ from the pieces in have, and zeros elsewhere.
// What the file system knows to be a hole is not read.
func (s *Sparse) Check(dir string, have map[int64]bool) string {
	want := make([][]Seg, len(s.Files)) // by file; Lo and Hi are bytes of the file
	src := make([][]byte, 0)
	idx := map[[2]int64]int{}
	for p := range have {
		for _, g := range s.Segs(p) {
			idx[[2]int64{int64(g.File), g.Off}] = len(src)
			src = append(src, s.Data[p][g.Lo:g.Hi])
			want[g.File] = append(want[g.File], Seg{g.File, g.Off, g.Off, g.Off + g.Hi - g.Lo})
		}
	}
	buf := make([]byte, 1<<20)
	for f := range s.Files {
		r, err := os.Open(s.LocalPath(dir, f))
		if err != nil {
			return err.Error()
		}
		defer r.Close()
		fi, err := r.Stat()
		if err != nil || fi.Size() != s.Files[f].Len {
			return fmt.Sprintf("file %d has %d bytes instead of %d", f, fi.Size(), s.Files[f].Len)
		}
		for _, g := range want[f] {
			b := src[idx[[2]int64{int64(f), g.Off}]]
			got := make([]byte, len(b))
			if _, err := r.ReadAt(got, g.Off); err != nil {
				return err.Error()
			}
			if !bytes.Equal(got, b) {
				return fmt.Sprintf("file %d at %d: %s", f, g.Off, DiffBytes(b, got))
			}
		}
		for pos := int64(0); pos < fi.Size(); {
			lo, err := syscall.Seek(int(r.Fd()), pos, 3) // SEEK_DATA
			if err != nil {
				break // only a hole is left
			}
			hi, err := syscall.Seek(int(r.Fd()), lo, 4) // SEEK_HOLE
			if err != nil {
				hi = fi.Size()
			}
			for at := lo; at < hi; {
				n, err := r.ReadAt(buf[:min(int64(len(buf)), hi-at)], at)
				if n == 0 {
					if err == io.EOF {
						break
					}
					return fmt.Sprint(err)
				}
				for k := 0; k < n; {
					x := at + int64(k)
					inside := false
					for _, g := range want[f] {
						if x >= g.Lo && x < g.Hi {
							k += int(g.Hi - x)
							inside = true
							break
						}
					}
					if inside {
						continue
					}
					if buf[k] != 0 {
						return fmt.Sprintf("file %d has the byte %#02x at %d, where nothing was written", f, buf[k], x)
					}
					k++
				}
				at += int64(n)
			}
			pos = hi
		}
	}
	return ""
}
