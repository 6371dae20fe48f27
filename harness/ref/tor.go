package ref

import (
	"bytes"
	"crypto/sha1"
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
)

// File is a file of a torrent.
type File struct {
	Path []string // for a single-file torrent, only the name
	Len  int64
}

// Tor is a torrent with its content.
type Tor struct {
	Name     string
	Announce string
	PieceLen int64
	Single   bool
	Files    []File
	Content  []byte // of all files
	Hashes   string
	Missed   []bool // the pieces whose hash is near to the right one (see NearMiss)
	InfoRaw  []byte
	Raw      []byte // the torrent file
	Infohash string
}

// TorOpts bounds what GenTor makes.
type TorOpts struct {
	Announce string
	MaxFiles int   // 0: 8
	MaxLen   int64 // of a file, 0: 4 pieces
	PieceLen int64 // 0: random
	MaxPiece int64 // 0: 64
	MinTotal int64
	Extra    bool // further keys in the dictionaries
	Unsorted bool // keys may be out of order
	Single   int  // 1: single file, 2: multiple files, 0: any
	NoEmpty  bool // no empty files
	Plain    bool // plain names
	Deep     int  // path elements, 0: up to 3
	Long     int  // names of up to so many bytes (or a little more)
	NearMiss int  // one in so many torrents records hashes that are not those of the content
}

var nameAlphabet = []string{"a", "b", "c", "file", "Z", "0", ".", "..", "...", " ", "-", "_", "é", "日本", "\\", "~", "%2e", ":", "*", "\t", "\xff", "e", "4:info", "path", "x.torrent"}

// PathName makes a legal path element.
func PathName(r *rand.Rand) string {
	for {
		s := ""
		for i := r.IntN(4); i >= 0; i-- {
			s += nameAlphabet[r.IntN(len(nameAlphabet))]
		}
		if r.IntN(50) == 0 { // long
			for n := 30 + r.IntN(190); len(s) < n; {
				s += nameAlphabet[r.IntN(len(nameAlphabet))]
			}
		}
		if s != "." && s != ".." {
			return s
		}
	}
}

// FileLen makes a length that is interesting with regard to the piece length.
func FileLen(r *rand.Rand, pl int64, maxLen int64) int64 {
	var n int64
	switch r.IntN(8) {
	case 0:
		n = 0
	case 1:
		n = 1
	case 2:
		n = pl
	case 3:
		n = pl*int64(1+r.IntN(3)) + int64(r.IntN(3)) - 1
	case 4:
		n = pl - 1
	default:
		n = r.Int64N(maxLen + 1)
	}
	return max(0, min(n, maxLen))
}

// GenTor makes a well-formed torrent with content.
func GenTor(r *rand.Rand, o TorOpts) *Tor {
	t := &Tor{Announce: o.Announce, PieceLen: o.PieceLen}
	if t.PieceLen == 0 {
		mp := o.MaxPiece
		if mp == 0 {
			mp = 64
		}
		t.PieceLen = 1 + r.Int64N(mp)
	}
	maxLen := o.MaxLen
	if maxLen == 0 {
		maxLen = 4 * t.PieceLen
	}
	maxFiles := o.MaxFiles
	if maxFiles == 0 {
		maxFiles = 8
	}
	name := func() string {
		if o.Plain {
			return "n" + fmt.Sprint(r.IntN(1000))
		}
		if o.Long > 0 && r.IntN(3) == 0 {
			return PathName(r) + strings.Repeat(string(rune('a'+r.IntN(26))), r.IntN(o.Long)) + PathName(r)
		}
		return PathName(r)
	}
	t.Single = r.IntN(3) == 0
	if o.Single == 1 {
		t.Single = true
	} else if o.Single == 2 {
		t.Single = false
	}
	t.Name = name()
	for try := 0; ; try++ {
		t.Files = nil
		if t.Single {
			n := FileLen(r, t.PieceLen, maxLen)
			t.Files = []File{{[]string{t.Name}, n}}
		} else {
			used := map[string]bool{}
			for i, n := 0, 1+r.IntN(maxFiles); i < n; i++ {
				var p []string
				for d := depth(r, o.Deep); d >= 0; d-- {
					p = append(p, name())
				}
				// A file must not also be a directory, or occur twice
				clash := false
				for k := 1; k <= len(p); k++ {
					s := strings.Join(p[:k], "/")
					if used["f"+s] || (k == len(p) && used["d"+s]) {
						clash = true
					}
				}
				if clash {
					p = []string{fmt.Sprintf("unique%d", i)}
				}
				for k := 1; k < len(p); k++ {
					used["d"+strings.Join(p[:k], "/")] = true
				}
				used["f"+strings.Join(p, "/")] = true
				t.Files = append(t.Files, File{p, FileLen(r, t.PieceLen, maxLen)})
			}
		}
		if o.NoEmpty {
			for i := range t.Files {
				t.Files[i].Len = max(1, t.Files[i].Len)
			}
		}
		if t.Total() >= max(o.MinTotal, 1) {
			break
		}
		if try > 20 {
			t.Files[0].Len += max(o.MinTotal, 1) - t.Total()
			break
		}
	}
	t.Content = make([]byte, t.Total())
	switch r.IntN(6) {
	case 0: // equal pieces
		for i := range t.Content {
			t.Content[i] = byte(int64(i)%t.PieceLen) ^ 0x5a
		}
	default:
		Fill(r, t.Content)
	}
	t.Finish(r, o)
	return t
}

func depth(r *rand.Rand, deep int) int {
	if deep == 0 || r.IntN(2) == 0 {
		return r.IntN(3)
	}
	return r.IntN(deep)
}

// Fill writes random bytes.
func Fill(r *rand.Rand, b []byte) {
	var x uint64
	for i := range b {
		if i%8 == 0 {
			x = r.Uint64()
		}
		b[i] = byte(x)
		x >>= 8
	}
}

// Finish computes the hashes and the torrent file from the other fields.
func (t *Tor) Finish(r *rand.Rand, o TorOpts) {
	var h strings.Builder
	for i := int64(0); i < t.NumPieces(); i++ {
		s := sha1.Sum(t.Piece(i))
		h.Write(s[:])
	}
	t.Hashes = h.String()
	t.Missed = make([]bool, t.NumPieces())
	if o.NearMiss > 0 && r.IntN(o.NearMiss) == 0 {
		t.nearMiss(r)
	}
	t.encode(r, o)
}

// encode makes the torrent file.
func (t *Tor) encode(r *rand.Rand, o TorOpts) {
	info := Pairs{}
	if t.Single {
		info = append(info, KV{"length", t.Files[0].Len})
	} else {
		fl := []any{}
		for _, f := range t.Files {
			p := []any{}
			for _, e := range f.Path {
				p = append(p, e)
			}
			fd := Pairs{{"length", f.Len}, {"path", p}}
			if o.Extra && r.IntN(3) == 0 {
				fd = append(fd, KV{"md5sum", Str(r, r.IntN(4))}, KV{"zz", Value(r, 2, true)})
			}
			if o.Extra && r.IntN(4) == 0 { // what other programs add
				q := append([]any{}, p...)
				q[len(q)-1] = "other"
				fd = append(fd, KV{"attr", []string{"p", "x", "l", "h", ""}[r.IntN(5)]}, KV{"path.utf-8", q}, KV{"symlink path", []any{"a", "b"}}, KV{"sha1", Str(r, 20)}, KV{"offset", r.Int64N(100)})
			}
			sortPairs(fd)
			fl = append(fl, fd)
		}
		info = append(info, KV{"files", fl})
	}
	info = append(info, KV{"name", t.Name}, KV{"piece length", t.PieceLen}, KV{"pieces", t.Hashes})
	top := Pairs{{"announce", t.Announce}}
	if o.Extra {
		if r.IntN(2) == 0 {
			info = append(info, KV{"private", int64(r.IntN(2))})
		}
		if r.IntN(2) == 0 {
			info = append(info, KV{"source", Str(r, r.IntN(5))}) // may be empty
		}
		if r.IntN(3) == 0 {
			info = append(info, KV{"zzz", Value(r, 3, true)})
		}
		if r.IntN(3) == 0 {
			// Nested dictionaries with keys of the same names
			info = append(info, KV{"yinfo", map[string]any{"info": map[string]any{"info": "4:info"}, "pieces": "", "name": "x"}})
		}
		if r.IntN(2) == 0 {
			top = append(top, KV{"comment", "d4:infod4:name1:xee" + Str(r, r.IntN(30))})
		}
		if r.IntN(2) == 0 {
			top = append(top, KV{"creation date", Int(r)})
		}
		if r.IntN(2) == 0 {
			top = append(top, KV{"announce-list", []any{[]any{t.Announce}, []any{}}})
		} else if r.IntN(2) == 0 {
			top = append(top, KV{"announce-list", []any{[]any{"http://other.example/announce", t.Announce}, []any{"udp://third.example:1"}}})
		}
		if r.IntN(3) == 0 { // what other programs add
			top = append(top, KV{"encoding", []string{"UTF-8", "GBK", "utf8"}[r.IntN(3)]}, KV{"created by", "x"}, KV{"httpseeds", []any{"http://seed.example/"}},
				KV{"nodes", []any{[]any{"127.0.0.1", int64(6881)}}}, KV{"name", "other"}, KV{"pieces", "x"}, KV{"piece length", int64(1)}, KV{"length", int64(1)})
			info = append(info, KV{"name.utf-8", "other"}, KV{"announce", "http://info.example/"}, KV{"md5sum", "0"}, KV{"publisher", "p"}, KV{"meta version", int64(1 + r.IntN(2))},
				KV{"root hash", Str(r, 20)}, KV{"file tree", map[string]any{}}, KV{"files.utf-8", []any{}}, KV{"sha1", Str(r, 20)}, KV{"path", []any{"p"}}, KV{"info", map[string]any{"length": int64(3)}})
		}
		if r.IntN(3) == 0 {
			top = append(top, KV{"azureus_properties", map[string]any{"info": map[string]any{"name": "no"}}})
		}
		if r.IntN(3) == 0 {
			top = append(top, KV{"xinfo", Value(r, 3, true)})
		}
		if r.IntN(3) == 0 {
			top = append(top, KV{"url-list", ""})
		}
	}
	sortPairs(info)
	if o.Unsorted && r.IntN(2) == 0 {
		r.Shuffle(len(info), func(i, j int) { info[i], info[j] = info[j], info[i] })
	}
	t.InfoRaw = Enc(info)
	top = append(top, KV{"info", Raw(t.InfoRaw)})
	sortPairs(top)
	if o.Unsorted && r.IntN(2) == 0 {
		r.Shuffle(len(top), func(i, j int) { top[i], top[j] = top[j], top[i] })
	}
	t.Raw = Enc(top)
	sum := sha1.Sum(t.InfoRaw)
	t.Infohash = string(sum[:])
}

// nearMiss changes some of the recorded hashes in a byte or a few, so that the
// content is not what the torrent describes.
func (t *Tor) nearMiss(r *rand.Rand) {
	h := []byte(t.Hashes)
	for p := range t.Missed {
		if r.IntN(3) == 0 {
			continue
		}
		g := h[20*p : 20*p+20]
		old := string(g)
		k := r.IntN(20)
		switch r.IntN(10) {
		case 0:
			g[k] ^= 1 << r.IntN(8)
		case 1:
			g[k]++
		case 2:
			g[0] ^= 0x80
		case 3:
			g[19] ^= 1
		case 4: // the case of the letters
			for j, c := range g {
				if c|0x20 >= 'a' && c|0x20 <= 'z' {
					g[j] ^= 0x20
				}
			}
		case 5: // other bytes that are not ASCII
			for j, c := range g {
				if c >= 0x80 {
					g[j] = 0x80 | byte(r.IntN(128))
				}
			}
		case 6: // the same bytes in another order
			j := (k + 1 + r.IntN(19)) % 20
			g[k], g[j] = g[j], g[k]
		case 7: // the first bytes are right
			for j := 4 * (1 + r.IntN(4)); j < 20; j++ {
				g[j] = byte(r.Uint32())
			}
		case 8: // the last bytes are right
			for j := 4 * r.IntN(4); j >= 0; j-- {
				g[j] = byte(r.Uint32())
			}
		default: // nothing, which is near to data that was never checked
			for j := range g {
				g[j] = 0
			}
		}
		t.Missed[p] = string(g) != old
	}
	t.Hashes = string(h)
}

func sortPairs(p Pairs) {
	for i := 1; i < len(p); i++ {
		for j := i; j > 0 && p[j].K < p[j-1].K; j-- {
			p[j], p[j-1] = p[j-1], p[j]
		}
	}
}

// Total is the sum of the lengths.
func (t *Tor) Total() int64 {
	n := int64(0)
	for _, f := range t.Files {
		n += f.Len
	}
	return n
}

// NumPieces is the number of pieces.
func (t *Tor) NumPieces() int64 { return (t.Total() + t.PieceLen - 1) / t.PieceLen }

// Piece is the content of a piece.
func (t *Tor) Piece(i int64) []byte {
	return t.Content[i*t.PieceLen : min((i+1)*t.PieceLen, int64(len(t.Content)))]
}

// Start is the offset of a file in the content.
func (t *Tor) Start(f int) int64 {
	n := int64(0)
	for _, g := range t.Files[:f] {
		n += g.Len
	}
	return n
}

// FileData is the content of a file.
func (t *Tor) FileData(f int) []byte { return t.Content[t.Start(f) : t.Start(f)+t.Files[f].Len] }

// LocalPath is where a file belongs.
func (t *Tor) LocalPath(dir string, f int) string {
	if t.Single {
		return filepath.Join(dir, t.Name)
	}
	return filepath.Join(append([]string{dir, t.Name}, t.Files[f].Path...)...)
}

// Save writes the torrent file.
func (t *Tor) Save(path string) string {
	if err := os.WriteFile(path, t.Raw, 0666); err != nil {
		panic(err)
	}
	return path
}

// SaveFiles writes the content.
func (t *Tor) SaveFiles(dir string) {
	for i := range t.Files {
		t.SaveFile(dir, i, t.FileData(i))
	}
}

// SaveFile writes data as the file f.
func (t *Tor) SaveFile(dir string, f int, data []byte) {
	p := t.LocalPath(dir, f)
	if err := os.MkdirAll(filepath.Dir(p), 0777); err != nil {
		panic(err)
	}
	if err := os.WriteFile(p, data, 0666); err != nil {
		panic(err)
	}
}

// OnDisk reads the content of all files as they are. ok is false if a file is
// missing or has another length.
func (t *Tor) OnDisk(dir string) (content []byte, err error) {
	for i, f := range t.Files {
		b, err := os.ReadFile(t.LocalPath(dir, i))
		if err != nil {
			return nil, err
		}
		if int64(len(b)) != f.Len {
			return nil, fmt.Errorf("file %d has %d bytes, want %d", i, len(b), f.Len)
		}
		content = append(content, b...)
	}
	return content, nil
}

// Owned says which pieces of content have the right hash.
func (t *Tor) Owned(content []byte) []bool {
	out := make([]bool, t.NumPieces())
	for i := range out {
		lo := int64(i) * t.PieceLen
		hi := min(lo+t.PieceLen, int64(len(content)))
		s := sha1.Sum(content[lo:hi])
		out[i] = string(s[:]) == t.Hashes[20*i:20*i+20]
	}
	return out
}

// Describe is for the samples.
func (t *Tor) Describe() string {
	var l []string
	for _, f := range t.Files {
		l = append(l, fmt.Sprintf("%q:%d", strings.Join(f.Path, "/"), f.Len))
	}
	return fmt.Sprintf("name %q, piece length %d, %d pieces, files %v", t.Name, t.PieceLen, t.NumPieces(), l)
}

// Snapshot reads a directory tree: path to content. Directories end in "/".
func Snapshot(dir string) map[string]string {
	out := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		rel, _ := filepath.Rel(dir, p)
		switch {
		case err != nil:
			out[rel] = "error: " + err.Error()
		case fi.IsDir():
			out[rel+"/"] = ""
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				out[rel] = "error: " + err.Error()
			} else {
				out[rel] = string(b)
			}
		default:
			out[rel] = "special " + fi.Mode().String()
		}
		return nil
	})
	return out
}

// DiffSnapshots describes the first difference, "" if there is none.
func DiffSnapshots(a, b map[string]string) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return fmt.Sprintf("%q is gone", k)
		}
		if v != w {
			return fmt.Sprintf("%q changed: %s", k, DiffBytes([]byte(v), []byte(w)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return fmt.Sprintf("%q is new", k)
		}
	}
	return ""
}

// DiffBytes describes the first difference.
func DiffBytes(want, got []byte) string {
	if bytes.Equal(want, got) {
		return ""
	}
	i := 0
	for i < len(want) && i < len(got) && want[i] == got[i] {
		i++
	}
	cut := func(b []byte) []byte {
		if i > len(b) {
			return nil
		}
		b = b[i:]
		if len(b) > 16 {
			b = b[:16]
		}
		return b
	}
	return fmt.Sprintf("%d and %d bytes, first difference at %d: want %x, got %x", len(want), len(got), i, cut(want), cut(got))
}
