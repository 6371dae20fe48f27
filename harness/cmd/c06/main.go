// C06: the files of a torrent stay inside the working directory.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"
	"unsafe"

	"gotor/torrent"
	"gotor/torrent/fileio"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C06",
		Rule: "Torrents whose name and path elements are hostile ('..', '.', empty, absolute, with slashes, NUL bytes, many levels up, up and down again, and in encodings that lead outside if they are decoded, expanded or trimmed) at " +
			"every position, mixed with harmless ones, with several forms of the working directory. Observed: an error, or local paths strictly inside the " +
			"working directory; then the files are prepared for real (as an unprivileged user, in a scratch directory) and the tree around the working " +
			"directory is compared before and after, and watched meanwhile for anything that is made, changed, moved or removed there. Distinct by the bytes of the torrent and the working directory.",
		Assumptions: []string{"no symbolic links inside the working directory"},
		Scenarios: []mon.Scenario{
			{Name: "paths", Quick: 24000, Thorough: 240000, Shards: 8, Nobody: true, Run: paths},
		},
		Require: map[string]int{"refused": 500, "accepted": 300, "prepared on disk": 100},
	})
}

var hostile = []string{"..", ".", "", "/", "a/b", "../x", "/etc/passwd", "a/../../b", "..\x00", "\x00", "a\x00b", "../../../../../../../../tmp/x", "/tmp/x", "./", "../", "..//..", "a/..", "./..",
	"work/../..", "a/../..", "b/../../work/c", "/..", "//", "..\\..", "~", "~root", "C:\\x", "....", "..a", "a..", ". ", ".. ",
	// Harmless, unless something decodes, expands or trims them after they were checked
	"%2e%2e", "%2e", "..%2f..%2fx", "%2e%2e%2fx", "%2Ftmp", "%252e%252e", "$UPDIR", "${UPDIR}", "$UPDIR$UPSEP$UPDIR", "%UPDIR%", "$HOME", "~/x", "..\\x", "..\\..\\..\\x", "\\tmp\\x", "a\\..\\..\\..\\b",
	" ..", "\t..", "..\n", "\u00a0..", "..\u200b", "\ufeff..", "\uff0e\uff0e", "\u2024\u2024", "\u2025", "..\u2215x", "..\u2044x", "..\uff0fx", "..\uff3cx", "\xc0\xae\xc0\xae", "\xc0\xaf", "..\xc0\xafx", "\xff..", "..\xff", "\xff", "..;", "..:", "...", "....", "..,",
	"\".." + "\"", "'..'", "`..`", "&#46;&#46;", "=2E=2E", "\\x2e\\x2e", "\\u002e\\u002e", "..\r", "file:..", "file:///tmp/x", "..|x", ".\x01.", ".\x7f.", "$(echo ..)", "*", "?", "[a-z]*", "{..,a}"}

// as says in which ways a hostile name is written with harmless parts around it.
func as(t *mon.T, s string) string {
	switch t.Rng.IntN(12) {
	case 0:
		return s + s
	case 1:
		return s + "a"
	case 2:
		return "a" + s
	case 3:
		return s + hostile[t.Rng.IntN(len(hostile))]
	case 4:
		return strings.ToUpper(s)
	}
	return s
}

func elem(t *mon.T, p int) string {
	if t.Rng.IntN(100) < p {
		return as(t, hostile[t.Rng.IntN(len(hostile))])
	}
	s := []string{"a", "b", "c", "work", "outer", "x y"}[t.Rng.IntN(6)]
	if t.Rng.IntN(4) == 0 { // related to the working directory, or to what is beside it
		add := []string{".x", ".", "2", "x", "-1", " ", "_", ".d", ".tmp", ".torrent", "~", ",", "+"}[t.Rng.IntN(13)]
		if s += add; t.Rng.IntN(4) == 0 {
			s = add + s[:len(s)-len(add)]
			if s == "." || s == ".." {
				s = "x"
			}
		}
	}
	return s
}

func paths(t *mon.T, i int) {
	os.Setenv("UPDIR", "..")
	os.Setenv("UPSEP", "/")
	r := t.Rng
	outer := filepath.Join(t.Dir(), "outer")
	work := filepath.Join(outer, "work")
	for _, d := range []string{work, filepath.Join(work, "a"), filepath.Join(outer, "work2"), filepath.Join(outer, "b")} {
		os.MkdirAll(d, 0777)
	}
	for _, f := range []string{"canary", "x", "b/x", "work2/x", "../canary", "../x"} {
		os.WriteFile(filepath.Join(outer, f), []byte("precious"), 0666)
	}
	single := r.IntN(3) == 0
	prob := []int{10, 30, 60}[r.IntN(3)]
	name := elem(t, prob)
	info := ref.Pairs{}
	total := int64(0)
	if single {
		total = int64(1 + r.IntN(20))
		info = append(info, ref.KV{K: "length", V: total})
	} else {
		l := []any{}
		for k := 1 + r.IntN(3); k > 0; k-- {
			p := []any{}
			for d := r.IntN(4); d >= 0; d-- {
				p = append(p, elem(t, prob))
			}
			n := int64(1 + r.IntN(20))
			total += n
			l = append(l, ref.Pairs{{K: "length", V: n}, {K: "path", V: p}})
		}
		info = append(info, ref.KV{K: "files", V: l})
	}
	info = append(info, ref.KV{K: "name", V: name}, ref.KV{K: "piece length", V: total}, ref.KV{K: "pieces", V: "12345678901234567890"})
	raw := ref.Enc(ref.Pairs{{K: "announce", V: "http://t/a"}, {K: "info", V: info}})
	file := filepath.Join(t.Dir(), "x.torrent")
	os.WriteFile(file, raw, 0666)

	wd := work
	rel := false
	switch r.IntN(8) {
	case 0:
		wd += "/"
	case 1:
		wd = work + "/../work"
	case 2:
		rel, wd = true, "."
	case 3:
		rel, wd = true, ""
	case 4:
		rel, wd = true, "./"
	case 5:
		wd = work + "/a/.."
	}
	if rel {
		old, _ := os.Getwd()
		if err := os.Chdir(work); err != nil {
			panic(err)
		}
		defer os.Chdir(old)
	}
	t.Key(raw, wd)
	t.Sample("working directory %q, name %q, %q", strings.TrimPrefix(wd, t.Dir()), name, raw[20:])
	tor, err := torrent.FromTorrentFile(file, wd)
	if err != nil {
		t.Event("refused", 1)
		return
	}
	t.Event("accepted", 1)
	base := filepath.Clean(wd)
	if wd == "" {
		base = "."
	}
	var before []string
	for _, f := range tor.Info().Files() {
		lp := f.LocalPath()
		before = append(before, lp)
		got, err := filepath.Rel(base, filepath.Clean(lp))
		if err != nil || got == "." || got == ".." || strings.HasPrefix(got, "../") || strings.ContainsRune(lp, 0) {
			t.Failf("outside", "working directory %q, local path %q\n%q", wd, lp, raw)
		}
	}
	if t.Failed() {
		return
	}
	// For real
	w := watch(t.Dir(), outer, filepath.Join(outer, "work2"), filepath.Join(outer, "b"))
	snap := ref.Snapshot(t.Dir())
	fio := fileio.NewFileIO(tor.Info())
	err = fio.OCATAll(tor.Info().Files())
	fio.CloseAll()
	if err == nil {
		t.Event("prepared on disk", 1)
	}
	if l, ok := w.seen(); len(l) > 0 {
		t.Failf("outside", "while the files were prepared, outside of the working directory %q: %q\n%q\nlocal paths %q", wd, l, raw, before)
	} else if ok {
		t.Event("watched", 1)
	}
	now := ref.Snapshot(t.Dir())
	for k := range now {
		if strings.HasPrefix(k, "outer/work/") {
			delete(now, k)
		}
	}
	for k := range snap {
		if strings.HasPrefix(k, "outer/work/") {
			delete(snap, k)
		}
	}
	if d := ref.DiffSnapshots(snap, now); d != "" {
		t.Failf("outside", "preparing the files changed the tree outside of the working directory %q: %s\n%q\nlocal paths %q", wd, d, raw, before)
	}
	if err == nil {
		for _, f := range tor.Info().Files() {
			if fi, err := os.Stat(f.LocalPath()); err != nil || fi.IsDir() {
				t.Failf("elsewhere", "the file %q was not made at its local path: %v", f.LocalPath(), fmt.Sprint(err))
			}
		}
	}
}

// watcher tells what happens to the entries of some directories.
type watcher struct {
	fd   int
	dirs map[int32]string
}

var watching = func() *watcher {
	fd, err := syscall.InotifyInit1(syscall.IN_NONBLOCK | syscall.IN_CLOEXEC)
	if err != nil {
		fd = -1 // there are no more of them
	}
	return &watcher{fd: fd}
}()

// watch starts with these directories only. (The watches of others end when
// the directories are removed. Making a watcher for each case takes long.)
func watch(dirs ...string) *watcher {
	w := watching
	for buf := make([]byte, 1<<16); ; {
		if n, err := syscall.Read(w.fd, buf); n <= 0 || err != nil {
			break
		}
	}
	w.dirs = map[int32]string{}
	for _, d := range dirs {
		if k, err := syscall.InotifyAddWatch(w.fd, d, syscall.IN_CREATE|syscall.IN_DELETE|syscall.IN_MOVED_FROM|syscall.IN_MOVED_TO|syscall.IN_MODIFY); err == nil {
			w.dirs[int32(k)] = d
		}
	}
	return w
}

func (w *watcher) seen() (l []string, ok bool) {
	buf := make([]byte, 1<<16)
	n, err := syscall.Read(w.fd, buf)
	if err != nil {
		return nil, err == syscall.EAGAIN
	}
	for o := 0; o+syscall.SizeofInotifyEvent <= n; {
		e := (*syscall.InotifyEvent)(unsafe.Pointer(&buf[o]))
		o += syscall.SizeofInotifyEvent
		dir, is := w.dirs[e.Wd]
		name := strings.TrimRight(string(buf[o:o+int(e.Len)]), "\x00")
		o += int(e.Len)
		if is {
			l = append(l, fmt.Sprintf("%s: %x", filepath.Join(dir, name), e.Mask))
		}
	}
	return l, true
}
