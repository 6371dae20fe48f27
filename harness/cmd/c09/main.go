// C09: preparing the files of a torrent loses nothing and makes them fit.
package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"gotor/torrent"
	"gotor/torrent/fileio"
	"gotor/utils"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	if os.Getenv("C09_CHILD") != "" {
		child()
		return
	}
	mon.Main(mon.Check{
		ID: "C09",
		Rule: "Torrents with files that are missing (with or without their directories), empty, shorter, as long as they should be, or longer, in one working directory " +
			"with unrelated files, some with names that are made from those of the torrent; sizes around the 1 MiB the code writes at a time; up to 5000 files, files beyond 4 GiB (sparse), files that lack hundreds of MiB; then the preparation is run and the directory compared byte by byte with what it must be. " +
			"Faults: a file size limit that makes writes fail at a given offset, files and directories without permission, directories in the way of files, running out of file " +
			"descriptors while another thread frees some; after an error, every byte that the user had must still be there. Crash points: a process that prepares is killed " +
			"after a random time and another one prepares again. Distinct by the torrent, the initial state and the fault.",
		Assumptions: []string{"the paths of the files of the torrent are distinct and none is the parent of another", "no other process writes to the files"},
		Scenarios: []mon.Scenario{
			{Name: "states", Quick: 6000, Thorough: 100000, Shards: 6, Nobody: true, Run: states},
			{Name: "large", Quick: 120, Thorough: 1500, Shards: 4, Nobody: true, Run: large},
			{Name: "huge", Quick: 32, Thorough: 300, Shards: 4, Nobody: true, Run: huge},
			{Name: "many", Quick: 12, Thorough: 100, Shards: 4, Nobody: true, Run: many},
			{Name: "direct", Quick: 2000, Thorough: 40000, Shards: 2, Nobody: true, Run: direct},
			{Name: "size-limit", Quick: 600, Thorough: 10000, Shards: 2, Nobody: true, Run: sizeLimit},
			{Name: "permissions", Quick: 600, Thorough: 10000, Shards: 2, Nobody: true, Run: permissions},
			{Name: "descriptors", Quick: 24, Thorough: 200, Shards: 2, Nobody: true, Run: descriptors},
			{Name: "killed", Quick: 100, Thorough: 2000, Shards: 4, Nobody: true, Run: killed},
		},
		Require: map[string]int{"files prepared": 5000, "prepared again": 1000, "relatives": 2000, "large files grown": 5, "files beyond 4 GiB kept": 5, "errors with data kept": 200, "killed while preparing": 3},
	})
}

// disk is the state of a directory: the content of each file, by its path.
type disk map[string][]byte

func (d disk) write() {
	for p, b := range d {
		os.MkdirAll(filepath.Dir(p), 0777)
		if err := os.WriteFile(p, b, 0666); err != nil {
			panic(err)
		}
	}
}

func (d disk) clone() disk {
	c := disk{}
	for k, v := range d {
		c[k] = v
	}
	return c
}

// initial makes a state of the files of a torrent, and of some others.
func initial(t *mon.T, tor *ref.Tor, dir string) (disk, string) {
	r := t.Rng
	d := disk{}
	desc := ""
	for f := range tor.Files {
		n := tor.Files[f].Len
		var have int64
		switch k := r.IntN(7); k {
		case 0:
			desc += "missing "
			continue
		case 1:
			have = 0
		case 2:
			have = n
		case 3:
			have = n + 1 + r.Int64N(20)
		case 4:
			have = n * 3
		default:
			have = r.Int64N(n + 1)
		}
		b := make([]byte, have)
		ref.Fill(r, b)
		if r.IntN(2) == 0 {
			copy(b, tor.FileData(f))
		}
		d[tor.LocalPath(dir, f)] = b
		desc += fmt.Sprintf("%d/%d ", have, n)
	}
	for k := r.IntN(3); k > 0; k-- {
		d[filepath.Join(dir, "unrelated", strconv.Itoa(k))] = []byte("unrelated")
		d[filepath.Join(filepath.Dir(tor.LocalPath(dir, r.IntN(len(tor.Files)))), "unrelated"+strconv.Itoa(k))] = []byte("unrelated too")
	}
	if r.IntN(3) == 0 {
		relatives(t, tor, dir, d)
	}
	return d, desc
}

// relatives puts files next to those of the torrent, and to its directories,
// with the names that temporary files, locks and copies would have.
func relatives(t *mon.T, tor *ref.Tor, dir string, d disk) {
	r := t.Rng
	taken := map[string]bool{}
	for f := range tor.Files {
		for p := tor.LocalPath(dir, f); len(p) > len(dir); p = filepath.Dir(p) {
			taken[p] = true
		}
	}
	suffixes := []string{".part", ".tmp", ".temp", ".bak", ".new", ".old", ".lock", ".gotor", ".resume", ".!qB", ".!ut", "~", ".swp", ".1", "1", "_", ".orig", ".partial", ".incomplete", ".crdownload", ".download", ".torrent", ".0", "-1", ".state"}
	prefixes := []string{".", "~", "_", "#", "tmp", "tmp-", ".#", ".~"}
	for k := 2 + r.IntN(6); k > 0; k-- {
		p := tor.LocalPath(dir, r.IntN(len(tor.Files)))
		for r.IntN(3) == 0 && filepath.Dir(p) != dir {
			p = filepath.Dir(p)
		}
		if r.IntN(4) != 0 {
			p += suffixes[r.IntN(len(suffixes))]
		} else {
			p = filepath.Join(filepath.Dir(p), prefixes[r.IntN(len(prefixes))]+filepath.Base(p))
		}
		if _, is := d[p]; is || taken[p] || len(filepath.Base(p)) > 200 {
			continue
		}
		d[p] = []byte("relative of a file")
		t.Event("relatives", 1)
	}
}

// prepared is the state that the preparation must lead to.
func prepared(d disk, tor *ref.Tor, dir string) disk {
	w := d.clone()
	for f := range tor.Files {
		p := tor.LocalPath(dir, f)
		b := make([]byte, tor.Files[f].Len)
		copy(b, d[p])
		w[p] = b
	}
	return w
}

func (d disk) compare(t *mon.T, dir, when string) bool {
	n := 0
	ok := true
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || !fi.Mode().IsRegular() {
			return nil
		}
		n++
		want, is := d[p]
		if !is {
			t.Failf("other-file", "%s: there is a file %q that should not be there", when, p)
			ok = false
			return nil
		}
		got, _ := os.ReadFile(p)
		if !bytes.Equal(got, want) {
			t.Failf("content", "%s: file %q: %s", when, p, ref.DiffBytes(want, got))
			ok = false
		}
		return nil
	})
	if ok && n != len(d) {
		t.Failf("missing", "%s: there are %d files instead of %d", when, n, len(d))
		ok = false
	}
	return ok
}

// kept checks that, after an error, what the user had is still there: nothing
// that belongs to the files of the torrent, or to other files, is gone.
func (d disk) kept(t *mon.T, tor *ref.Tor, dir, when string) {
	want := prepared(d, tor, dir)
	for p, b := range d {
		got, err := os.ReadFile(p)
		if err != nil {
			t.Failf("lost", "%s: %v", when, err)
			return
		}
		keep := min(len(b), len(want[p]))
		if len(got) < keep || !bytes.Equal(got[:keep], b[:keep]) {
			t.Failf("lost", "%s: file %q had %d bytes of which %d are its own: %s", when, p, len(b), keep, ref.DiffBytes(b[:keep], got))
			return
		}
		for _, c := range got[keep:] {
			if c != 0 && len(got) != len(b) {
				t.Failf("garbage", "%s: file %q has garbage after its %d bytes", when, p, keep)
				return
			}
		}
	}
	t.Event("errors with data kept", 1)
}

func open(t *mon.T, tor *ref.Tor, dir string) *torrent.Torrent {
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	g, err := torrent.FromTorrentFile(file, dir)
	if err != nil {
		t.Failf("refused", "well-formed torrent refused: %v\n%s", err, tor.Describe())
		return nil
	}
	return g
}

func states(t *mon.T, i int) {
	tor := ref.GenTor(t.Rng, ref.TorOpts{MaxFiles: 6})
	check(t, tor)
}

func large(t *mon.T, i int) {
	r := t.Rng
	lens := []int64{1 << 20, 1<<20 - 1, 1<<20 + 1, 2 << 20, 3<<20 + 5, 5<<20 - 1}
	tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 3, PieceLen: 1 << 18, MaxLen: lens[r.IntN(len(lens))], MinTotal: 1 << 20})
	tor.Files[0].Len = lens[r.IntN(len(lens))]
	tor.Content = make([]byte, tor.Total())
	ref.Fill(r, tor.Content)
	tor.Finish(r, ref.TorOpts{})
	check(t, tor)
}

// huge prepares one file that is large: more than 4 GiB, of which all but a few
// bytes are there, or one that lacks up to 400 MiB.
func huge(t *mon.T, i int) {
	r := t.Rng
	p := filepath.Join(t.Dir(), "a", "file")
	os.MkdirAll(filepath.Dir(p), 0777)
	var n, have int64
	marks := map[int64]byte{}
	if i%2 == 0 {
		n = 1<<32 + r.Int64N(3) - 1
		if r.IntN(2) == 0 {
			n = 1<<32 + r.Int64N(1<<32)
		}
		switch r.IntN(4) {
		case 0:
			have = n
		case 1:
			have = n + 1 + r.Int64N(1<<20)
		case 2:
			have = n + 1<<32
		default:
			have = n - 1 - r.Int64N(3<<20)
		}
	} else {
		n = 64<<20 + r.Int64N(400<<20)
		if r.IntN(4) == 0 {
			n = n / 4096 * 4096
		}
		have = r.Int64N(100)
		if r.IntN(3) == 0 {
			have = r.Int64N(n)
		}
	}
	w, err := os.Create(p)
	if err != nil {
		panic(err)
	}
	w.Truncate(have)
	for _, at := range []int64{0, have / 2, have - 1, n - 1, n, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32} {
		if at >= 0 && at < have {
			marks[at] = byte(1 + r.IntN(255))
			w.WriteAt([]byte{marks[at]}, at)
		}
	}
	w.Close()
	what := fmt.Sprintf("%d bytes, file with %d", n, have)
	t.Key(what, fmt.Sprint(marks))
	t.Sample("%s", what)
	fp, err := utils.OCAT(p, n)
	if err != nil {
		t.Failf("error", "%s: %v", what, err)
		return
	}
	defer fp.Close()
	fi, err := os.Stat(p)
	if err != nil || fi.Size() != n {
		t.Failf("content", "%s: it has %d bytes afterwards (%v)", what, fi.Size(), err)
		return
	}
	r2, err := os.Open(p)
	if err != nil {
		panic(err)
	}
	defer r2.Close()
	for at, c := range marks {
		b := []byte{0}
		if at < n {
			if _, err := r2.ReadAt(b, at); err != nil || b[0] != c {
				t.Failf("content", "%s: byte %d was %#02x and is %#02x (%v)", what, at, c, b[0], err)
				return
			}
		}
	}
	// Zeros elsewhere
	buf := make([]byte, 1<<20)
	for pos := int64(0); pos < n; {
		lo, err := syscall.Seek(int(r2.Fd()), pos, 3) // SEEK_DATA
		if err != nil {
			break
		}
		k, _ := r2.ReadAt(buf, lo)
		for j, c := range buf[:k] {
			if c != 0 && marks[lo+int64(j)] != c {
				t.Failf("content", "%s: byte %d is %#02x", what, lo+int64(j), c)
				return
			}
		}
		pos = lo + int64(k)
		if k == 0 {
			break
		}
	}
	if _, err := fp.WriteAt([]byte{77}, n-1); err != nil {
		t.Failf("error", "%s: the file cannot be written: %v", what, err)
	}
	t.Event("files prepared", 1)
	if n > have && n-have > 64<<20 {
		t.Event("large files grown", 1)
	}
	if n > 1<<32-2 {
		t.Event("files beyond 4 GiB kept", 1)
	}
}

// many has very many files.
func many(t *mon.T, i int) {
	check(t, ref.GenTor(t.Rng, ref.TorOpts{MaxFiles: mon.Files([]int{900, 900, 5000}[i%3]), MaxLen: 40, Single: 2, Plain: i%2 == 0}))
}

func check(t *mon.T, tor *ref.Tor) {
	r := t.Rng
	dir := filepath.Join(t.Dir(), "work")
	d, desc := initial(t, tor, dir)
	d.write()
	if r.IntN(2) == 0 {
		os.MkdirAll(dir, 0777)
	}
	g := open(t, tor, dir)
	if g == nil {
		return
	}
	t.Sample("%s; on disk: %s", tor.Describe(), desc)
	t.Key(tor.Raw, desc)
	want := prepared(d, tor, dir)
	for k := 0; k < 2; k++ {
		fio := fileio.NewFileIO(g.Info())
		if err := fio.OCATAll(g.Info().Files()); err != nil {
			t.Failf("error", "the preparation fails: %v\n%s; on disk: %s", err, tor.Describe(), desc)
			return
		}
		if !want.compare(t, dir, fmt.Sprintf("preparation %d of %s; on disk: %s", k+1, tor.Describe(), desc)) {
			return
		}
		if k == 0 {
			t.Event("files prepared", len(tor.Files))
		} else {
			t.Event("prepared again", 1)
		}
		if k == 0 {
			// It can be used
			buf := make([]byte, tor.PieceLen)
			all := []byte{}
			for p := int64(0); p < tor.NumPieces(); p++ {
				n, err := fio.ReadPiece(p, buf)
				if err != nil {
					t.Failf("error", "piece %d of the prepared files cannot be read: %v", p, err)
					return
				}
				all = append(all, buf[:n]...)
			}
			exp := []byte{}
			for f := range tor.Files {
				exp = append(exp, want[tor.LocalPath(dir, f)]...)
			}
			if !bytes.Equal(all, exp) {
				t.Failf("content", "the pieces read: %s", ref.DiffBytes(exp, all))
				return
			}
		}
		if err := fio.CloseAll(); err != nil {
			t.Failf("error", "closing the files: %v", err)
		}
	}
}

// direct uses the function that prepares one file.
func direct(t *mon.T, i int) {
	r := t.Rng
	n, have := ref.FileLen(r, 64, 300), ref.FileLen(r, 64, 300)
	missing := r.IntN(4) == 0
	p := filepath.Join(t.Dir(), "a", "b", "file")
	b := make([]byte, have)
	ref.Fill(r, b)
	if !missing {
		os.MkdirAll(filepath.Dir(p), 0777)
		os.WriteFile(p, b, 0666)
	} else {
		b = nil
	}
	t.Key(n, b, missing)
	t.Sample("%d bytes, file with %d (missing: %v)", n, have, missing)
	want := make([]byte, n)
	copy(want, b)
	fp, err := utils.OCAT(p, n)
	if err != nil {
		t.Failf("error", "%d bytes, file with %d (missing: %v): %v", n, have, missing, err)
		return
	}
	defer fp.Close()
	got, _ := os.ReadFile(p)
	if !bytes.Equal(got, want) {
		t.Failf("content", "%d bytes, file with %d (missing: %v): %s", n, have, missing, ref.DiffBytes(want, got))
		return
	}
	t.Event("files prepared", 1)
	// The file it returns can be written and read
	if n > 0 {
		if _, err := fp.WriteAt([]byte{77}, n-1); err != nil {
			t.Failf("error", "the file cannot be written: %v", err)
		}
		c := []byte{0}
		if _, err := fp.ReadAt(c, n-1); err != nil || c[0] != 77 {
			t.Failf("error", "the file cannot be read: %v", err)
		}
	}
}

func setLimit(res int, v uint64) (restore func()) {
	var old syscall.Rlimit
	if err := syscall.Getrlimit(res, &old); err != nil {
		panic(err)
	}
	if err := syscall.Setrlimit(res, &syscall.Rlimit{Cur: v, Max: old.Max}); err != nil {
		panic(err)
	}
	return func() {
		if err := syscall.Setrlimit(res, &old); err != nil {
			panic(err)
		}
	}
}

func sizeLimit(t *mon.T, i int) {
	const fsize = 1 // RLIMIT_FSIZE
	signal.Ignore(syscall.SIGXFSZ)
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 3, MaxPiece: 4096, MaxLen: 9000})
	if r.IntN(3) == 0 { // what does not fit in one write
		tor.Files[0].Len = 1<<20 + r.Int64N(2<<20)
		tor.PieceLen = 65536
		tor.Content = make([]byte, tor.Total())
		ref.Fill(r, tor.Content)
		tor.Finish(r, ref.TorOpts{})
	}
	dir := filepath.Join(t.Dir(), "work")
	d, desc := initial(t, tor, dir)
	d.write()
	g := open(t, tor, dir)
	if g == nil {
		return
	}
	limit := uint64(r.Int64N(tor.Total() + 1))
	if r.IntN(2) == 0 {
		limit = uint64(r.Int64N(tor.Files[r.IntN(len(tor.Files))].Len + 1))
	}
	mustFail := false
	for f := range tor.Files {
		// (a file that is as long or longer needs no write)
		have := int64(len(d[tor.LocalPath(dir, f)]))
		if tor.Files[f].Len > have && uint64(tor.Files[f].Len) > limit {
			mustFail = true
		}
	}
	t.Key(tor.Raw, desc, limit)
	t.Sample("%s; on disk: %s; no file may be larger than %d", tor.Describe(), desc, limit)
	fio := fileio.NewFileIO(g.Info())
	restore := setLimit(fsize, limit)
	err := fio.OCATAll(g.Info().Files())
	restore()
	defer fio.CloseAll()
	when := fmt.Sprintf("%s; on disk: %s; no file may be larger than %d", tor.Describe(), desc, limit)
	if (err != nil) != mustFail {
		t.Failf("fault-hidden", "%s: the preparation must fail: %v, but the error is %v", when, mustFail, err)
		return
	}
	if err != nil {
		d.kept(t, tor, dir, when)
	} else {
		prepared(d, tor, dir).compare(t, dir, when)
	}
	// Once there is space, it works
	again(t, g, tor, d, dir, when)
}

func again(t *mon.T, g *torrent.Torrent, tor *ref.Tor, d disk, dir, when string) {
	fio := fileio.NewFileIO(g.Info())
	defer fio.CloseAll()
	if err := fio.OCATAll(g.Info().Files()); err != nil {
		t.Failf("error", "%s: and afterwards without the fault: %v", when, err)
		return
	}
	prepared(d, tor, dir).compare(t, dir, "after a failure: "+when)
	t.Event("prepared again", 1)
}

func permissions(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 4, MaxLen: 200, Plain: true})
	dir := filepath.Join(t.Dir(), "work")
	d, desc := initial(t, tor, dir)
	d.write()
	os.MkdirAll(dir, 0777)
	g := open(t, tor, dir)
	if g == nil {
		return
	}
	victim := r.IntN(len(tor.Files))
	p := tor.LocalPath(dir, victim)
	_, exists := d[p]
	what := ""
	undo := func() {}
	switch k := r.IntN(3); {
	case exists && k == 0:
		what = "a file that may only be read"
		os.Chmod(p, 0444)
		undo = func() { os.Chmod(p, 0666) }
	case exists && k == 1:
		what = "a file that may only be written"
		os.Chmod(p, 0222)
		undo = func() { os.Chmod(p, 0666) }
	case exists:
		what = "a file without permission"
		os.Chmod(p, 0)
		undo = func() { os.Chmod(p, 0666) }
	case k == 0:
		what = "a directory instead of a file"
		os.MkdirAll(p, 0777)
		undo = func() { os.Remove(p) }
	default:
		what = "a directory that may not be written"
		par := filepath.Dir(p)
		os.MkdirAll(par, 0777)
		os.Chmod(par, 0555)
		undo = func() { os.Chmod(par, 0777) }
	}
	if os.Geteuid() == 0 {
		undo()
		return
	}
	t.Key(tor.Raw, desc, what)
	when := fmt.Sprintf("%s: %s; on disk: %s", what, tor.Describe(), desc)
	t.Sample("%s", when)
	fio := fileio.NewFileIO(g.Info())
	err := fio.OCATAll(g.Info().Files())
	fio.CloseAll()
	undo()
	if err == nil {
		t.Failf("fault-hidden", "%s: no error", when)
		return
	}
	d.kept(t, tor, dir, when)
	again(t, g, tor, d, dir, when)
}

// descriptors prepares files while there are hardly any file descriptors, and
// another thread takes and frees some.
func descriptors(t *mon.T, i int) {
	r := t.Rng
	dir := filepath.Join(t.Dir(), "work")
	tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 2, MaxLen: 200, Plain: true})
	d := disk{}
	for f := range tor.Files {
		d[tor.LocalPath(dir, f)] = bytes.Clone(tor.FileData(f))
	}
	d.write()
	g := open(t, tor, dir)
	if g == nil {
		return
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	limit := uint64(len(fds) + 10)
	restore := setLimit(syscall.RLIMIT_NOFILE, limit)
	var stop atomic.Bool
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		for !stop.Load() {
			var l []int
			for {
				fd, err := syscall.Open("/dev/null", 0, 0)
				if err != nil {
					break
				}
				l = append(l, fd)
			}
			for _, fd := range l {
				syscall.Close(fd)
			}
		}
	}()
	errs, oks := 0, 0
	dl := time.Now().Add(150 * time.Millisecond)
	for time.Now().Before(dl) && errs+oks < 6000 {
		fio := fileio.NewFileIO(g.Info())
		if err := fio.OCATAll(g.Info().Files()); err != nil {
			errs++
		} else {
			oks++
		}
		fio.CloseAll()
	}
	stop.Store(true)
	wg.Wait()
	restore()
	t.Key(tor.Raw, errs, oks)
	t.Sample("%s: %d preparations, %d failed for lack of file descriptors", tor.Describe(), errs+oks, errs)
	t.Event("lacked file descriptors", errs)
	if errs > 0 {
		d.kept(t, tor, dir, "complete files, while file descriptors are scarce, "+tor.Describe())
	}
}

// child prepares the files of the torrent given, and says when it begins.
func child() {
	g, err := torrent.FromTorrentFile(os.Args[1], os.Args[2])
	if err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Println("begin")
	fio := fileio.NewFileIO(g.Info())
	if err := fio.OCATAll(g.Info().Files()); err != nil {
		fmt.Println(err)
		os.Exit(3)
	}
	fmt.Println("end")
	os.Exit(0)
}

func killed(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{MaxFiles: 6, PieceLen: 1 << 18, MaxLen: 3 << 20, MinTotal: 4 << 20})
	dir := filepath.Join(t.Dir(), "work")
	d, desc := initial(t, tor, dir)
	d.write()
	g := open(t, tor, dir)
	if g == nil {
		return
	}
	cmd := exec.Command("/proc/self/exe", filepath.Join(t.Dir(), "x.torrent"), dir)
	cmd.Env = append(os.Environ(), "C09_CHILD=1")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	b := make([]byte, 6)
	out.Read(b)
	time.Sleep(time.Duration(r.IntN(1+1500*r.IntN(3))) * time.Microsecond)
	cmd.Process.Kill()
	rest := make([]byte, 100)
	n, _ := out.Read(rest)
	cmd.Wait()
	when := fmt.Sprintf("killed while it prepared %s; on disk: %s", tor.Describe(), desc)
	if !bytes.Contains(rest[:n], []byte("end")) {
		t.Event("killed while preparing", 1)
	}
	t.Key(tor.Raw, desc, n)
	t.Sample("%s", when)
	d.kept(t, tor, dir, when)
	again(t, g, tor, d, dir, when)
}
