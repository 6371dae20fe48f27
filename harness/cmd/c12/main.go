// C12: what the client thinks it owns when it starts.
package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand/v2"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"gotor/torrent"
	"gotor/torrent/fileio"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	if os.Getenv("C12_CHILD") != "" {
		child()
		return
	}
	mon.Main(mon.Check{
		ID: "C12",
		Rule: "Clients are started (for real, with a tracker on the loopback interface) for random torrents whose files are missing, short, long, corrupt in any pieces (a bit, a byte, at piece and " +
			"file boundaries), shifted, swapped or complete, with up to 20000 pieces, thousands of files, files of more than 4 GiB (sparse), or whose recorded hashes are near to those of the content. Observed: for each piece, whether the client says it owns it, against the hashes computed here over the files as they were before; the count, " +
			"the completeness, the bytes left that the tracker is told; and the files after. Crash points: a process writes pieces and acknowledges each; it is killed at a random time; a client started " +
			"afterwards must own every acknowledged piece, and own no piece that is not right. Distinct by the torrent and the state of the files.",
		Assumptions: []string{"the machine itself does not crash (data that the kernel has accepted survives the process)", "SHA-1 collisions do not occur among the inputs"},
		Scenarios: []mon.Scenario{
			{Name: "states", Quick: 12000, Thorough: 120000, Shards: 8, Nobody: true, Run: states},
			{Name: "many", Quick: 40, Thorough: 400, Shards: 4, Nobody: true, Run: many},
			{Name: "huge", Quick: 4, Thorough: 60, Shards: 4, Nobody: true, Run: huge},
			{Name: "large", Quick: 40, Thorough: 400, Shards: 4, Nobody: true, Run: large},
			{Name: "restarts", Quick: 1200, Thorough: 12000, Shards: 8, Nobody: true, Run: restarts},
			{Name: "killed", Quick: 300, Thorough: 3000, Shards: 8, Nobody: true, Run: killed},
		},
		Require: map[string]int{"pieces owned": 5000, "pieces not owned": 5000, "complete": 200, "pieces with a hash near to the recorded one": 2000, "killed while writing": 10, "pieces beyond 4 GiB": 5, "pieces beyond the 5000th": 5000, "acknowledged pieces found": 500},
	})
}

// damage makes a state of the content.
func damage(r *rand.Rand, tor *ref.Tor) ([]byte, string) {
	c := bytes.Clone(tor.Content)
	pl := int(tor.PieceLen)
	n := int(tor.NumPieces())
	switch r.IntN(9) {
	case 0:
		return c, "complete"
	case 1:
		return make([]byte, len(c)), "zeros"
	case 2:
		k := r.IntN(len(c))
		c[k] ^= 1 << r.IntN(8)
		return c, fmt.Sprintf("bit %d flipped", k)
	case 3: // at the edges of a piece
		p := r.IntN(n)
		k := p * pl
		if r.IntN(2) == 0 {
			k = min(len(c), (p+1)*pl) - 1
		}
		c[k]++
		return c, fmt.Sprintf("byte %d changed", k)
	case 4: // at the edges of a file
		f := r.IntN(len(tor.Files))
		k := int(tor.Start(f))
		if r.IntN(2) == 0 {
			k += int(tor.Files[f].Len)
		}
		k = min(k, len(c)-1)
		c[k]--
		return c, fmt.Sprintf("byte %d changed", k)
	case 5:
		for p := 0; p < n; p++ {
			if r.IntN(2) == 0 {
				c[p*pl+r.IntN(min(pl, len(c)-p*pl))] ^= 0x80
			}
		}
		return c, "half of the pieces corrupt"
	case 6:
		copy(c[1:], tor.Content)
		return c, "shifted"
	case 7: // two pieces swapped
		if n >= 3 {
			a, b := r.IntN(n-1), r.IntN(n-1)
			copy(c[a*pl:], tor.Piece(int64(b)))
			copy(c[b*pl:], tor.Piece(int64(a)))
		}
		return c, "pieces swapped"
	default:
		ref.Fill(r, c)
		return c, "random"
	}
}

func states(t *mon.T, i int) {
	check(t, ref.GenTor(t.Rng, ref.TorOpts{Announce: env.Shared().URL + "/a", NearMiss: 4}))
}

func large(t *mon.T, i int) {
	if i%20 == 0 {
		check(t, ref.GenTor(t.Rng, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 1<<(21+t.Rng.IntN(4)) + t.Rng.Int64N(3) - 1, MaxFiles: 4, MaxLen: 9 << 20, MinTotal: 4 << 20, NearMiss: 4}))
		return
	}
	check(t, ref.GenTor(t.Rng, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 16384<<t.Rng.IntN(6) + t.Rng.Int64N(3) - 1, MaxFiles: 12, MaxLen: 3 << 20, MinTotal: 1 << 20, NearMiss: 4}))
}

// many has many pieces, or many files.
func many(t *mon.T, i int) {
	r := t.Rng
	o := ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 1 + r.Int64N(5), NearMiss: 4, Plain: true}
	switch i % 4 {
	case 0:
		o.MaxFiles, o.MaxLen = mon.Files(2500), 9
	default:
		o.PieceLen = 1 + r.Int64N(40)
		o.MinTotal = o.PieceLen * int64(r.IntN(17000)+3000)
		o.MaxLen = o.MinTotal
	}
	tor := ref.GenTor(r, o)
	t.Event("pieces beyond the 5000th", int(max(0, tor.NumPieces()-5000)))
	check(t, tor)
}

// huge has files of more than 4 GiB, which are zeros except for a few pieces.
func huge(t *mon.T, i int) {
	r := t.Rng
	s := ref.GenSparse(r, env.Shared().URL+"/a")
	env.Shared().Take()
	dir := filepath.Join(t.Dir(), "work")
	have := map[int64]bool{}
	for _, p := range s.Odd {
		if r.IntN(2) == 0 {
			have[p] = true
		}
	}
	s.Lay(dir, have)
	t.Key(s.Raw, fmt.Sprint(have))
	t.Sample("%s", s.Describe())
	c, err := env.NewClient(s.Tor, filepath.Join(t.Dir(), "x.torrent"), dir)
	if err != nil {
		t.Failf("error", "the client does not start: %v\n%s", err, s.Describe())
		return
	}
	defer c.Fileio.CloseAll()
	left, n := int64(0), int64(0)
	for p := int64(0); p < s.NumPieces(); p++ {
		data, odd := s.Data[p]
		o := !odd || have[p]
		if c.Bf.Get(p) != o {
			t.Failf("bitfield", "%s: piece %d (at %d) is on disk: %v, the client says: %v", s.Describe(), p, p*s.PieceLen, o, c.Bf.Get(p))
			return
		}
		if o {
			n++
		} else {
			left += int64(len(data))
		}
		if p*s.PieceLen > 1<<32 && odd {
			t.Event("pieces beyond 4 GiB", 1)
		}
	}
	if c.Bf.Nset() != n || c.Bf.Complete() != (n == s.NumPieces()) {
		t.Failf("bitfield", "%s: %d pieces are on disk; the client counts %d, complete: %v", s.Describe(), n, c.Bf.Nset(), c.Bf.Complete())
	}
	reqs := env.Shared().Take()
	if len(reqs) != 1 {
		t.Failf("announce", "%d announces", len(reqs))
		return
	}
	q, _ := url.ParseQuery(reqs[0].Raw)
	if q.Get("left") != strconv.FormatInt(left, 10) {
		t.Failf("announce", "%s: %d bytes are left, the tracker was told %q", s.Describe(), left, q.Get("left"))
	}
	if d := s.Check(dir, have); d != "" {
		t.Failf("files", "%s: starting changed the files: %s", s.Describe(), d)
	}
}

func check(t *mon.T, tor *ref.Tor) {
	r := t.Rng
	dir := filepath.Join(t.Dir(), "work")
	c, what := damage(r, tor)
	for f := range tor.Files {
		s := tor.Start(f)
		b := c[s : s+tor.Files[f].Len]
		switch r.IntN(12) {
		case 0:
			what += fmt.Sprintf(", file %d missing", f)
			continue
		case 1:
			k := r.IntN(len(b) + 1)
			b = b[:k]
			what += fmt.Sprintf(", file %d cut to %d", f, k)
		case 2:
			b = append(bytes.Clone(b), []byte("too long")...)
			what += fmt.Sprintf(", file %d too long", f)
		}
		tor.SaveFile(dir, f, b)
	}
	t.Sample("%s: %s", tor.Describe(), what)
	t.Key(tor.Raw, c, what)
	start(t, tor, dir, what)
}

// disk returns the content that the files stand for: cut to their length, or
// continued with zeros.
func disk(tor *ref.Tor, dir string) []byte {
	all := []byte{}
	for f := range tor.Files {
		b := make([]byte, tor.Files[f].Len)
		have, _ := os.ReadFile(tor.LocalPath(dir, f))
		copy(b, have)
		all = append(all, b...)
	}
	return all
}

func start(t *mon.T, tor *ref.Tor, dir, what string) *env.Client {
	env.Shared().Take()
	want := disk(tor, dir)
	owned := tor.Owned(want)
	c, err := env.NewClient(tor, filepath.Join(t.Dir(), "x.torrent"), dir)
	if err != nil {
		t.Failf("error", "the client does not start: %v\n%s: %s", err, tor.Describe(), what)
		return nil
	}
	defer c.Fileio.CloseAll()
	fail := func(fp, f string, a ...any) {
		t.Failf(fp, "%s\n%s: %s", fmt.Sprintf(f, a...), tor.Describe(), what)
	}
	if c.Bf.Nbits() != tor.NumPieces() {
		fail("bitfield", "%d bits for %d pieces", c.Bf.Nbits(), tor.NumPieces())
		return nil
	}
	n, left := int64(0), int64(0)
	for p, o := range owned {
		if got := c.Bf.Get(int64(p)); got != o {
			fail("bitfield", "piece %d is on disk: %v, the client says: %v", p, o, got)
			return nil
		}
		if o {
			n++
		} else {
			left += int64(len(tor.Piece(int64(p))))
		}
	}
	for p, m := range tor.Missed {
		if m && bytes.Equal(tor.Piece(int64(p)), want[int64(p)*tor.PieceLen:min(int64(len(want)), int64(p+1)*tor.PieceLen)]) {
			t.Event("pieces with a hash near to the recorded one", 1)
		}
	}
	t.Event("pieces owned", int(n))
	t.Event("pieces not owned", len(owned)-int(n))
	if c.Bf.Nset() != n || c.Bf.Complete() != (n == tor.NumPieces()) {
		fail("bitfield", "%d pieces of %d are on disk; the client counts %d, complete: %v", n, len(owned), c.Bf.Nset(), c.Bf.Complete())
		return nil
	}
	if n == tor.NumPieces() {
		t.Event("complete", 1)
	}
	if !bytes.Equal(c.Bf.Data(), env.Bits(owned)) {
		fail("bitfield", "the bitfield is %x instead of %x", c.Bf.Data(), env.Bits(owned))
		return nil
	}
	reqs := env.Shared().Take()
	if len(reqs) != 1 {
		fail("announce", "%d announces", len(reqs))
		return nil
	}
	q, _ := url.ParseQuery(reqs[0].Raw)
	if q.Get("left") != strconv.FormatInt(left, 10) {
		fail("announce", "%d bytes are left, the tracker was told %q", left, q.Get("left"))
	}
	got, err := tor.OnDisk(dir)
	if err != nil || !bytes.Equal(got, want) {
		fail("files", "starting changed the files (%v): %s", err, ref.DiffBytes(want, got))
		return nil
	}
	return c
}

// restarts writes some pieces between two starts, and damages the files.
func restarts(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxPiece: 40})
	dir := filepath.Join(t.Dir(), "work")
	what := "started"
	for k := 0; k < 4; k++ {
		c := start(t, tor, dir, what)
		if c == nil {
			return
		}
		fio := fileio.NewFileIO(c.Swarm.Tor.Info())
		if err := fio.OCATAll(c.Swarm.Tor.Info().Files()); err != nil {
			t.Failf("error", "preparing the files again: %v", err)
			return
		}
		for j := r.IntN(6); j >= 0; j-- {
			p := r.Int64N(tor.NumPieces())
			if _, err := fio.WritePiece(p, bytes.Clone(tor.Piece(p))); err != nil {
				t.Failf("error", "writing piece %d: %v", p, err)
				return
			}
			what += fmt.Sprintf(", %d written", p)
		}
		fio.CloseAll()
		if r.IntN(3) == 0 {
			f := r.IntN(len(tor.Files))
			p := tor.LocalPath(dir, f)
			if b, _ := os.ReadFile(p); len(b) > 0 {
				b[r.IntN(len(b))] ^= 4
				os.WriteFile(p, b, 0666)
				what += fmt.Sprintf(", file %d damaged", f)
			}
		}
	}
	t.Key(tor.Raw, what)
	t.Sample("%s: %s", tor.Describe(), what)
}

// child writes pieces and acknowledges each on its standard output.
func child() {
	g, err := torrent.FromTorrentFile(os.Args[1], os.Args[2])
	if err != nil {
		os.Exit(3)
	}
	content, err := os.ReadFile(os.Args[3])
	if err != nil {
		os.Exit(3)
	}
	fio := fileio.NewFileIO(g.Info())
	if err := fio.OCATAll(g.Info().Files()); err != nil {
		os.Exit(3)
	}
	pl := g.Info().PieceLen()
	for _, s := range strings.Split(os.Args[4], ",") {
		p, _ := strconv.ParseInt(s, 10, 64)
		_, err := fio.WritePiece(p, content[p*pl:min(int64(len(content)), (p+1)*pl)])
		if err != nil {
			os.Exit(3)
		}
		syscall.Write(1, []byte(s+"\n"))
	}
	os.Exit(0)
}

func killed(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 1000 + r.Int64N(30000), MaxFiles: 6, MaxLen: 400000, MinTotal: 500000})
	dir := filepath.Join(t.Dir(), "work")
	os.MkdirAll(dir, 0777)
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	data := filepath.Join(t.Dir(), "content")
	os.WriteFile(data, tor.Content, 0666)
	var order []string
	for _, p := range r.Perm(int(tor.NumPieces())) {
		order = append(order, strconv.Itoa(p))
	}
	cmd := exec.Command("/proc/self/exe", file, dir, data, strings.Join(order, ","))
	cmd.Env = append(os.Environ(), "C12_CHILD=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	stopAt := r.IntN(len(order) + 1)
	delay := time.Duration(r.IntN(300)) * time.Microsecond
	sc := bufio.NewScanner(out)
	acked := []int{}
	for sc.Scan() {
		p, _ := strconv.Atoi(sc.Text())
		acked = append(acked, p)
		if len(acked) == stopAt {
			go func() {
				time.Sleep(delay)
				cmd.Process.Kill()
			}()
		}
	}
	err = cmd.Wait()
	if x, ok := err.(*exec.ExitError); ok && x.ExitCode() == 3 {
		t.Failf("error", "writing right pieces fails\n%s", tor.Describe())
		return
	}
	if err != nil {
		t.Event("killed while writing", 1)
	}
	t.Key(tor.Raw, fmt.Sprint(acked))
	t.Sample("%s: killed after %d of %d writes", tor.Describe(), len(acked), len(order))
	c := start(t, tor, dir, fmt.Sprintf("%d pieces were written before the process was killed", len(acked)))
	if c == nil {
		return
	}
	for _, p := range acked {
		if !c.Bf.Get(int64(p)) {
			t.Failf("lost", "piece %d was written, and is gone after the process was killed\n%s", p, tor.Describe())
			return
		}
		t.Event("acknowledged pieces found", 1)
	}
}
