// C28: command-line options mean what they say, or are refused.
package main

import (
	"crypto/sha1"
	"encoding/binary"
	"fmt"
	"math"
	"math/big"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	gio "gotor/io"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/prog"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C28",
		Rule: "Limits as generated strings (numbers of any size near every boundary, every unit in both cases, signs, spaces, other letters, digits of other scripts, several units, nothing), for both directions, ports and commands, given to the option " +
			"parser, and compared with exact arithmetic. Then the program itself with such options and generated torrents: the limits and the torrent's metadata that it prints, the port it announces and listens on, the files it prepares in the " +
			"working directory given (absolute, relative, with dots), and with invalid options, or arguments that are none, its exit code, while the tracker and the working directory show that it touched nothing. Also the limits at work: bytes per time of a client with one " +
			"direction limited, and of clients with a download limit that peers flood with messages or send the pieces requested (in fake time, and some in real time): never more than admitted, and never less. Distinct by options.",
		Assumptions: []string{"not decided: the smallest 64-bit integer as a limit, numbers of a port with a base prefix, underscores or leading zeros, how messages are worded"},
		Scenarios: []mon.Scenario{
			{Name: "limits", Quick: 4000, Thorough: 60000, Shards: 4, Run: limits},
			{Name: "ports", Quick: 1000, Thorough: 10000, Shards: 2, Run: ports},
			{Name: "info", Quick: 400, Thorough: 2500, Shards: 4, Nobody: true, Run: info},
			{Name: "refused", Quick: 240, Thorough: 3000, Shards: 4, Nobody: true, Run: refused},
			{Name: "swarm", Quick: 60, Thorough: 800, Shards: 4, Nobody: true, Run: runs},
			{Name: "effect", Quick: 8, Thorough: 60, Shards: 8, Nobody: true, Run: effect},
			{Name: "download", Quick: 240, Thorough: 3000, Shards: 4, Nobody: true, Sync: true, Run: func(t *mon.T, i int) { download(t, i, false) }},
			{Name: "live", Quick: 8, Thorough: 60, Shards: 8, Nobody: true, Run: func(t *mon.T, i int) { download(t, i, true) }},
		},
		Require: map[string]int{"limits taken": 10000, "limits refused": 10000, "ports taken": 2000, "ports refused": 1500, "torrents printed": 100, "huge torrents": 50, "programs refused": 150, "programs at work": 40, "limits at work": 6, "download limits at work": 200, "limited downloads seen": 3000},
	})
}

var form = regexp.MustCompile(`^(-?[0-9]+)([BKMGbkmg]?)$`)

// limit says what a limit means. ok is false if it is none; any is true if
// that is not decided.
func limit(s string) (v int64, ok, any bool) {
	m := form.FindStringSubmatch(s)
	if m == nil {
		return 0, false, false
	}
	n, _ := new(big.Int).SetString(m[1], 10)
	if u := strings.Index("BKMG", strings.ToUpper(m[2])); m[2] != "" {
		n.Lsh(n, uint(10*u))
	}
	if !n.IsInt64() {
		return 0, false, false
	}
	return n.Int64(), true, n.Int64() == math.MinInt64
}

func number(r *rand.Rand) string {
	switch r.IntN(6) {
	case 0:
		return fmt.Sprint(r.IntN(3000))
	case 1:
		return fmt.Sprint(r.Uint64() >> r.IntN(64))
	case 2, 3: // near a bound
		n := new(big.Int).Lsh(big.NewInt(1), uint([]int{63, 53, 43, 33, 64, 62, 32, 31, 54, 44, 34, 70, 128}[r.IntN(13)]))
		n.Add(n, big.NewInt(r.Int64N(5)-2))
		return n.String()
	case 4:
		return strings.Repeat("0", r.IntN(30)) + fmt.Sprint(r.IntN(100))
	default:
		return []string{"0", "1", "-1", "--1", "", "+1", "1.5", "1e3", "0x10", "1_000", " 1", "1 ", "١", "１", "9223372036854775807", "9223372036854775808"}[r.IntN(16)]
	}
}

func limitText(r *rand.Rand) string {
	if r.IntN(10) == 0 {
		b := make([]byte, r.IntN(6))
		for i := range b {
			b[i] = "0123456789BKMGbkmgtTiI-+ .\x00\xff"[r.IntN(28)]
		}
		return string(b)
	}
	s := number(r)
	if r.IntN(4) == 0 {
		s = "-" + s
	}
	switch r.IntN(8) {
	case 0:
	case 1:
		s += []string{"T", "P", "KB", "KiB", "bb", "k ", " k", "\n", "0b", "K1", "µ", "K", "-", "\x00", "Bb", "/s", "MB", "G\n", "e"}[r.IntN(19)]
	default:
		s += string("BKMGbkmg"[r.IntN(8)])
	}
	return s
}

func limits(t *mon.T, i int) {
	r := t.Rng
	for k := 0; k < 20; k++ {
		up, dn := limitText(r), limitText(r)
		if r.IntN(2) == 0 { // one of them certainly valid
			p := []*string{&up, &dn}[r.IntN(2)]
			*p = []string{"-1B", "5K", "0", "1g"}[r.IntN(4)]
		}
		t.Key(up, "/", dn)
		u, uok, uany := limit(up)
		d, dok, dany := limit(dn)
		o, err := env.Options("x.torrent", "w", "1", up, dn)
		desc := fmt.Sprintf("-u %q -d %q", up, dn)
		if k == 0 {
			t.Sample("%s", desc)
		}
		if uany || dany {
			continue
		}
		if !uok || !dok {
			if err == nil {
				t.Failf("limit-accepted", "%s is accepted as %d and %d", desc, o.UpLimit(), o.DnLimit())
				return
			}
			t.Event("limits refused", 1)
			continue
		}
		if err != nil {
			t.Failf("limit-refused", "%s is refused: %v", desc, err)
			return
		}
		if o.UpLimit() != u || o.DnLimit() != d {
			t.Failf("limit", "%s is taken as %d and %d, expected %d and %d", desc, o.UpLimit(), o.DnLimit(), u, d)
			return
		}
		t.Event("limits taken", 1)
	}
}

func portText(r *rand.Rand) (s string, ok bool) {
	if r.IntN(2) == 0 {
		p := []int{1, 1, 9, 80, 65535, 65534, 6881, 1 + r.IntN(65535), 1 + r.IntN(65535)}[r.IntN(9)]
		return fmt.Sprint(p), true
	}
	return []string{"0", "65536", "65537", "131072", "66066", "-1", "-65535", "4294967296", "4294967297", "18446744073709551615", "18446744073709551616", "99999999999999999999", "", "x", "80x", "1.0", "1e3", " 80", "80 ", "６",
		fmt.Sprint(65536 + r.IntN(1<<30)), fmt.Sprint(r.Uint64() | 1<<40)}[r.IntN(22)], false
}

func ports(t *mon.T, i int) {
	r := t.Rng
	for k := 0; k < 10; k++ {
		p, ok := portText(r)
		input, dir := ref.Str(r, 1+r.IntN(12)), ref.Str(r, 1+r.IntN(12))
		if r.IntN(10) == 0 {
			if r.IntN(2) == 0 {
				input = ""
			} else {
				dir = ""
			}
		}
		t.Key(p, "/", input, "/", dir)
		o, err := env.Options(input, dir, p, "-1B", "-1B")
		desc := fmt.Sprintf("-p %q -i %q -w %q", p, input, dir)
		if k == 0 {
			t.Sample("%s", desc)
		}
		if !ok || input == "" || dir == "" {
			if err == nil {
				t.Failf("accepted", "%s is accepted", desc)
				return
			}
			t.Event("ports refused", 1)
			continue
		}
		if err != nil {
			t.Failf("refused", "%s is refused: %v", desc, err)
			return
		}
		if fmt.Sprint(o.Port()) != p || o.Input() != input || o.WorkingDir() != dir {
			t.Failf("port", "%s is taken as %d, %q, %q", desc, o.Port(), o.Input(), o.WorkingDir())
			return
		}
		t.Event("ports taken", 1)
	}
}

// arg writes an option in one of the forms that the flag package has.
func arg(r *rand.Rand, k, v string) []string {
	switch r.IntN(3) {
	case 0:
		return []string{"-" + k + "=" + v}
	case 1:
		return []string{"--" + k, v}
	}
	return []string{"-" + k, v}
}

func goodLimit(r *rand.Rand) string {
	for {
		s := limitText(r)
		if _, ok, any := limit(s); ok && !any {
			return s
		}
	}
}

// head checks the limits that are printed first.
func head(t *mon.T, p *prog.Prog, up, dn string) bool {
	l := strings.SplitN(p.Stdout(), "\n", 3)
	u, _, _ := limit(up)
	d, _, _ := limit(dn)
	if len(l) < 3 || l[0] != fmt.Sprint(u) || l[1] != fmt.Sprint(d) {
		t.Failf("printed-limits", "gotor %q prints %.200q, expected the limits %d and %d\n%s", p.Args, p.Stdout(), u, d, p.Tail())
		return false
	}
	return true
}

func info(t *mon.T, i int) {
	r := t.Rng
	url := []string{"http://127.0.0.1:1/announce", "udp://x.y:1", "http://e.x/a?b=c%20&d", "x"}[r.IntN(4)]
	x := ref.GenTor(r, ref.TorOpts{Announce: url, MaxPiece: 1 << r.IntN(14), MaxFiles: 6, Extra: true})
	if r.IntN(3) == 0 {
		x = huge(r, url)
		t.Event("huge torrents", 1)
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	x.Save(file)
	dir := filepath.Join(t.Dir(), "work")
	os.MkdirAll(dir, 0777)
	bad := r.IntN(5) == 0
	if bad {
		b := x.Raw[:r.IntN(len(x.Raw))]
		if r.IntN(4) == 0 {
			os.Remove(file)
		} else {
			os.WriteFile(file, b, 0666)
		}
	}
	up, dn := goodLimit(r), goodLimit(r)
	args := append(arg(r, "cmd", "info"), arg(r, "i", file)...)
	args = append(args, arg(r, "w", dir)...)
	args = append(args, arg(r, "u", up)...)
	args = append(args, arg(r, "d", dn)...)
	p := prog.Start(t, t.Dir(), args...)
	t.Key(x.Raw, args[len(args)-1], bad)
	code, ok := p.Wait(60 * time.Second)
	if !ok {
		t.Failf("hangs", "gotor %q does not end", args)
		return
	}
	if bad {
		if code == 0 {
			t.Failf("exit-code", "gotor %q ends with 0, though the torrent cannot be read\n%.1000s", args, p.Stdout())
		}
		t.Event("torrents refused", 1)
		return
	}
	if code != 0 {
		t.Failf("exit-code", "gotor %q ends with %d\n%s", args, code, p.Tail())
		return
	}
	if !head(t, p, up, dn) {
		return
	}
	t.Sample("%q prints %.300q", args, p.Stdout())
	_, text, _ := strings.Cut(p.Stdout(), "\n")
	_, text, _ = strings.Cut(text, "\n")
	need := func(what, s string) {
		if !strings.Contains(text, s) {
			t.Failf("printed", "gotor info does not print %s, %q\n%s\n%.3000s", what, s, x.Describe(), text)
		}
	}
	need("the name", x.Name)
	need("the announce URL", x.Announce)
	need("the infohash", fmt.Sprintf("%x", x.Infohash))
	num := func(what string, n int64) {
		if !regexp.MustCompile(`(^|[^0-9.])` + fmt.Sprint(n) + `([^0-9]|$)`).MatchString(text) {
			t.Failf("printed", "gotor info does not print %s, %d\n%s\n%.3000s", what, n, x.Describe(), text)
		}
	}
	num("the number of pieces", x.NumPieces())
	num("the total length", x.Total())
	if len(x.Files) > 1 { // (the path of an only file is not printed)
		rest := text
		if i := strings.Index(rest, "Files:"); i >= 0 {
			rest = rest[i:]
		}
		for f := range x.Files {
			path := filepath.Join(x.Files[f].Path...)
			at := strings.Index(rest, path)
			if at < 0 {
				t.Failf("printed", "gotor info does not print the path %q in its place\n%s\n%.3000s", path, x.Describe(), text)
				break
			}
			if m := regexp.MustCompile(`(?:^|\s)([0-9.e+]+) ?([KMGTPE]?i?B)[ :]+$`).FindStringSubmatch(rest[:at]); m != nil {
				if v, ok := size(m[1], m[2]); ok && math.Abs(v-float64(x.Files[f].Len)) > float64(x.Files[f].Len)*0.01 {
					t.Failf("printed-size", "%q is printed for file %d of %d bytes\n%s", m[0], f, x.Files[f].Len, x.Describe())
				} else if ok {
					t.Event("sizes of files compared", 1)
				}
			}
			rest = rest[at+len(path):]
		}
	}
	// Numbers with units are those of a length
	for _, m := range regexp.MustCompile(`([A-Z][a-z]+): \[([0-9]+ x )?([0-9.e+]+) ([KMGTPE]?i?B)\]`).FindAllStringSubmatch(text, -1) {
		v, ok := size(m[3], m[4])
		if !ok {
			continue
		}
		want := float64(x.Total())
		if m[1] == "Pieces" {
			want = float64(x.PieceLen)
		}
		if math.Abs(v-want) > want*0.01 {
			t.Failf("printed-size", "%q is printed, but the size is %.0f\n%s", m[0], want, x.Describe())
		}
	}
	t.Event("torrents printed", 1)
}

// huge makes a torrent of any size up to some TiB, without the content.
func huge(r *rand.Rand, url string) *ref.Tor {
	x := &ref.Tor{Name: ref.PathName(r), Announce: url, PieceLen: r.Int64N(1<<(1+r.IntN(31))) + 1, Single: r.IntN(3) == 0}
	if r.IntN(2) == 0 { // round, or near to it
		x.PieceLen = max(1, 1<<r.IntN(31)+r.Int64N(3)-1)
	}
	left := 1 + r.Int64N(x.PieceLen*(1+r.Int64N(2000)))
	if x.Single {
		x.Files = []ref.File{{Path: []string{x.Name}, Len: left}}
	}
	for k := 0; !x.Single && (k == 0 || left > 0); k++ {
		n := r.Int64N(1 + min(left, 1<<r.IntN(44)))
		if k > 6 {
			n = left
		}
		x.Files = append(x.Files, ref.File{Path: []string{"d", fmt.Sprint("file", k)}, Len: n})
		left -= n
	}
	if x.Total() == 0 {
		x.Files[0].Len = 1
	}
	h := make([]byte, 20*x.NumPieces())
	ref.Fill(r, h)
	x.Hashes = string(h)
	fd := ref.Pairs{}
	if x.Single {
		fd = append(fd, ref.KV{K: "length", V: x.Files[0].Len})
	} else {
		var l []any
		for _, f := range x.Files {
			var p []any
			for _, e := range f.Path {
				p = append(p, e)
			}
			l = append(l, ref.Pairs{{K: "length", V: f.Len}, {K: "path", V: p}})
		}
		fd = append(fd, ref.KV{K: "files", V: l})
	}
	fd = append(fd, ref.KV{K: "name", V: x.Name}, ref.KV{K: "piece length", V: x.PieceLen}, ref.KV{K: "pieces", V: x.Hashes})
	sum := sha1.Sum(ref.Enc(fd))
	x.Infohash = string(sum[:])
	x.Raw = ref.Enc(ref.Pairs{{K: "announce", V: url}, {K: "info", V: fd}})
	return x
}

// size reads a number with a unit.
func size(n, unit string) (float64, bool) {
	v, err := strconv.ParseFloat(n, 64)
	if u := strings.Index("KMGTPE", unit[:1]); u >= 0 {
		v *= math.Pow(1024, float64(u+1))
	}
	return v, err == nil
}

// refused runs the program with something invalid.
func refused(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	tr.Take()
	x := ref.GenTor(r, ref.TorOpts{Announce: tr.URL + "/a", MaxPiece: 100, MaxFiles: 3, Plain: true})
	file := filepath.Join(t.Dir(), "x.torrent")
	x.Save(file)
	dir := filepath.Join(t.Dir(), "work")
	if r.IntN(2) == 0 {
		x.SaveFiles(dir)
		os.WriteFile(filepath.Join(dir, "other"), []byte("x"), 0666)
	} else {
		os.MkdirAll(dir, 0777)
	}
	port := prog.FreePort(r)
	o := map[string]string{"i": file, "w": dir, "p": fmt.Sprint(port), "u": goodLimit(r), "d": goodLimit(r), "cmd": []string{"swarm", "info"}[r.IntN(2)]}
	k := []string{"u", "d", "p", "cmd", "i", "w", "i-", "w-", "unknown", "stray"}[r.IntN(10)]
	switch k {
	case "u", "d":
		for {
			o[k] = limitText(r)
			if _, ok, any := limit(o[k]); !ok && !any && !strings.Contains(o[k], "\x00") {
				break
			}
		}
	case "p":
		for {
			var ok bool
			if o[k], ok = portText(r); !ok {
				break
			}
		}
	case "cmd":
		o[k] = []string{"", "Swarm", "SWARM", "inf", "infoo", "info ", "help", "x", "seed", "swarm\n"}[r.IntN(10)]
	case "i":
		o[k] = []string{"", filepath.Join(t.Dir(), "nothing"), t.Dir(), "/dev/null"}[r.IntN(4)]
	case "w":
		o[k] = ""
	case "i-", "w-":
		delete(o, k[:1])
	}
	var args []string
	stray := r.IntN(7)
	for pos, n := range append(r.Perm(6), 6) {
		if k == "stray" && pos == stray {
			args = append(args, []string{"swarm", "5K", "-", "=", "x y", "", "p=80", "/", "80"}[r.IntN(9)])
		}
		if n == 6 {
			break
		}
		n := []string{"i", "w", "p", "u", "d", "cmd"}[n]
		if v, ok := o[n]; ok {
			args = append(args, arg(r, n, v)...)
		}
	}
	if k == "unknown" {
		args = append([]string{"-x" + k}, args...)
	}
	before := ref.Snapshot(dir)
	p := prog.Start(t, t.Dir(), args...)
	t.Key(k, o["u"], o["d"], o["p"], o["cmd"], o["i"] == "")
	t.Sample("%q", args)
	code, ok := p.Wait(60 * time.Second)
	if !ok {
		t.Failf("hangs", "gotor %q does not end", args)
		return
	}
	if code == 0 {
		t.Failf("exit-code", "gotor %q ends with 0, though option %s is invalid\n%.1000s", args, k, p.Stdout())
	}
	if d := ref.DiffSnapshots(before, ref.Snapshot(dir)); d != "" {
		t.Failf("touched", "gotor %q, with an invalid option %s, touched the working directory: %s", args, k, d)
	}
	if n := len(tr.Take()); n > 0 {
		t.Failf("touched", "gotor %q, with an invalid option %s, announced itself", args, k)
	}
	t.Event("programs refused", 1)
}

// runs runs the program as a swarm.
func runs(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	tr.Take()
	x := ref.GenTor(r, ref.TorOpts{Announce: tr.URL + "/a", MaxPiece: 5000, MaxFiles: 4})
	file := filepath.Join(t.Dir(), "x.torrent")
	x.Save(file)
	cwd := filepath.Join(t.Dir(), "cwd")
	os.MkdirAll(cwd, 0777)
	name := "work" + ref.PathName(r)
	dir := filepath.Join(t.Dir(), name)
	given := []string{dir, dir + "/", "../" + name, filepath.Join(t.Dir(), "cwd", "..", name), ".././" + name + "//", "."}[r.IntN(6)]
	if given == "." {
		dir = cwd
	}
	os.MkdirAll(dir, 0777)
	owned := make([]bool, x.NumPieces())
	if r.IntN(3) > 0 {
		x.SaveFiles(dir)
		for k := range owned {
			owned[k] = true
		}
	} else {
		for k := range owned {
			owned[k] = strings.Trim(string(x.Piece(int64(k))), "\x00") == ""
		}
	}
	up, dn := goodLimit(r), goodLimit(r)
	if v, _, _ := limit(up); v >= 0 && v < 1<<20 {
		up = "-1B" // (else the bitfield is as it is, but nothing else comes)
	}
	port := prog.FreePort(r)
	args := append(arg(r, "i", file), arg(r, "w", given)...)
	args = append(args, arg(r, "u", up)...)
	args = append(args, arg(r, "d", dn)...)
	args = append(args, arg(r, "p", fmt.Sprint(port))...)
	if r.IntN(2) == 0 {
		args = append(args, arg(r, "cmd", "swarm")...)
	}
	p := prog.Start(t, cwd, args...)
	t.Key(x.Raw, up, dn, given, port)
	t.Sample("%q", args)
	if !p.Ready(port, 60*time.Second) {
		if !p.PortTaken() {
			t.Failf("not-ready", "gotor %q does not listen on its port\n%s\n%s", args, x.Describe(), p.Tail())
		}
		return
	}
	if !head(t, p, up, dn) {
		return
	}
	reqs := tr.Take()
	if len(reqs) != 1 || !strings.Contains("&"+reqs[0].Raw+"&", fmt.Sprintf("&port=%d&", port)) {
		t.Failf("announced-port", "gotor %q announces %v", args, reqs)
		return
	}
	for f := range x.Files {
		fi, err := os.Stat(x.LocalPath(dir, f))
		if err != nil || fi.Size() != x.Files[f].Len {
			t.Failf("files", "gotor %q did not prepare file %q: %v\n%s", args, x.LocalPath(dir, f), err, x.Describe())
			return
		}
	}
	if dir != cwd {
		if l, _ := os.ReadDir(cwd); len(l) > 0 {
			t.Failf("elsewhere", "gotor %q wrote %v in the current directory", args, l)
		}
	}
	c, err := prog.Dial(port, x.Infohash, 1)
	if err != nil {
		t.Failf("connect", "gotor %q: %v", args, err)
		return
	}
	defer c.C.Close()
	if !c.Wait(60*time.Second, func(_ []byte, m []env.Msg, _ bool) bool { return env.Count(m, 5) > 0 }) {
		if p.Running() {
			t.Failf("no-bitfield", "gotor %q gives no bitfield\n%s", args, p.Tail())
		} else {
			t.Failf("ended", "gotor %q ended\n%s", args, p.Tail())
		}
		return
	}
	_, msgs, _, _, _ := c.State()
	if string(msgs[0].Payload) != string(env.Bits(owned)) {
		t.Failf("bitfield", "gotor %q, %s, has bitfield %x, expected %x", args, x.Describe(), msgs[0].Payload, env.Bits(owned))
	}
	t.Event("programs at work", 1)
}

// counter counts what is written.
type counter struct{ n atomic.Int64 }

func (c *counter) Write(b []byte) (int, error) { c.n.Add(int64(len(b))); return len(b), nil }

// effect sees that the limits given are those at work, each in its direction.
func effect(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	x := ref.GenTor(r, ref.TorOpts{Announce: tr.URL + "/a", MaxPiece: 100, MaxFiles: 3, Plain: true})
	file := filepath.Join(t.Dir(), "x.torrent")
	x.Save(file)
	dir := filepath.Join(t.Dir(), "work")
	x.SaveFiles(dir)
	const chunk = 1000
	kinds := []struct{ up, dn string }{{"3K", "-1B"}, {"-1B", "1B"}, {"8k", "1B"}, {"5000", "1G"}, {"2K", "900M"}, {"-5K", "3"}, {"10K", "1"}, {"1B", "-1"}}
	k := kinds[i%len(kinds)]
	o, err := env.Options(file, dir, "1", k.up, k.dn)
	if err != nil {
		t.Failf("refused", "-u %s -d %s is refused: %v", k.up, k.dn, err)
		return
	}
	s, err := swarm.NewSwarm(o)
	if err != nil {
		t.Failf("no-client", "%v", err)
		return
	}
	defer s.Fileio.CloseAll()
	go s.RLIO.Run()
	defer s.RLIO.Stop()
	rate, _, _ := limit(k.up)
	t.Key(k.up, k.dn)
	var c counter
	start := time.Now()
	if rate < 0 {
		for n := 0; n < 3000; n++ {
			s.RLIO.Write(&c, make([]byte, chunk))
		}
		if d := time.Since(start); d > 20*time.Second {
			t.Failf("limited", "-u %s -d %s: uploading %d bytes took %v", k.up, k.dn, c.n.Load(), d)
		}
		t.Event("limits at work", 1)
		return
	}
	stop := make(chan struct{})
	go func() {
		for {
			select {
			case <-stop:
				return
			default:
				s.RLIO.Write(&c, make([]byte, chunk))
			}
		}
	}()
	for k2 := 0; k2 < 4; k2++ {
		time.Sleep(900 * time.Millisecond)
		n := c.n.Load()
		secs := int64(time.Since(start).Seconds()) + 2
		per := (rate + chunk - 1) / chunk * chunk
		if n > secs*per {
			t.Failf("not-limited", "-u %s -d %s: %d bytes were uploaded in less than %d s", k.up, k.dn, n, secs)
			break
		}
	}
	close(stop)
	if n, secs := c.n.Load(), int64(3); n < rate*secs/2 && time.Since(start) < 10*time.Second {
		t.Failf("too-slow", "-u %s -d %s: only %d bytes were uploaded in %v", k.up, k.dn, n, time.Since(start))
	}
	t.Event("limits at work", 1)
}

// download sees that what peers send is taken as fast as the download limit
// admits, and no faster: peers that send whatever they like without end, and
// one that sends what the client requests. In fake time, or (fewer) with the
// client as it is.
func download(t *mon.T, i int, live bool) {
	r := t.Rng
	const chunk = 16384 // the client reads at most so much at once
	units := []struct {
		s string
		n int64
	}{{"B", 1}, {"b", 1}, {"K", 1 << 10}, {"k", 1 << 10}}
	u := units[r.IntN(len(units))]
	var rate int64
	for rate == 0 || rate > 1<<18 {
		rate = (1 + r.Int64N(1<<(4+r.IntN(16)))) * u.n
	}
	dn := fmt.Sprintf("%d%s", rate/u.n, u.s)
	if r.IntN(6) == 0 {
		dn, rate = []string{"-1", "-1B", "-3K"}[r.IntN(3)], -1
	}
	up := "-1"
	flood := live || i%3 > 0
	if flood && r.IntN(2) == 0 {
		up = []string{"1B", "3K", "1M"}[r.IntN(3)]
	}
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxFiles: 3, MaxLen: 1 << 19, MinTotal: 1 << 17, PieceLen: []int64{1 << 14, 1 << 15, 40000}[r.IntN(3)], NoEmpty: true, Plain: true})
	dir := filepath.Join(t.Dir(), "work")
	if flood {
		tor.SaveFiles(dir)
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	o, err := env.Options(file, dir, "1", up, dn)
	if err != nil {
		t.Failf("refused", "-u %s -d %s is refused: %v", up, dn, err)
		return
	}
	t.Key(tor.Raw, up, dn)
	t.Sample("-u %s -d %s, flood %v: %s", up, dn, flood, tor.Describe())
	s, err := swarm.NewSwarm(o)
	if err != nil {
		t.Failf("no-client", "%v", err)
		return
	}
	defer s.Fileio.CloseAll()
	inTime := func(f func(*testing.T)) { synctest.Test(t.TT, f) }
	settle := synctest.Wait
	if live {
		inTime = func(f func(*testing.T)) { f(t.TT) }
		settle = func() {}
	}
	inTime(func(_ *testing.T) {
		if !live {
			// its clock is that of this bubble
			s.RLIO = gio.NewRateLimitIO()
			s.RLIO.SetReadRate(o.DnLimit())
			s.RLIO.SetWriteRate(o.UpLimit())
		}
		start := time.Now()
		go s.RLIO.Run()
		defer s.RLIO.Stop()
		if live {
			time.Sleep(time.Second / 10)
		}
		settle() // (it starts to count anew when it runs)
		c := &env.Client{Swarm: s, Dir: dir, Tor: tor}
		peers := 1
		if flood {
			peers += r.IntN(4)
		}
		var sent atomic.Int64
		stop := make(chan struct{})
		var all []*env.Session
		for p := 0; p < peers; p++ {
			ss := env.Connect(c, 3000+p)
			all = append(all, ss)
			hs := env.Handshake(tor.Infohash, env.PeerID(p))
			bits := env.Bits(make([]bool, tor.NumPieces()))
			if !flood {
				for k := range bits {
					bits[k] = 0xff
				}
				if n := tor.NumPieces() % 8; n > 0 {
					bits[len(bits)-1] <<= 8 - n
				}
			}
			pr := rand.New(rand.NewPCG(r.Uint64(), uint64(p)))
			send := func(b []byte) bool {
				for len(b) > 0 {
					n := min(len(b), chunk)
					if pr.IntN(2) == 0 {
						n = min(n, 1+pr.IntN(4000))
					}
					m, err := ss.C.Write(b[:n])
					sent.Add(int64(m))
					if err != nil {
						return false
					}
					b = b[n:]
				}
				return true
			}
			go func() {
				if _, err := ss.C.Write(append(hs, env.Msg{Type: 5, Payload: bits}.Bytes()...)); err != nil {
					return
				}
				if !flood {
					for done := 0; ; {
						_, msgs, _, ended, _ := ss.State()
						for ; done < len(msgs); done++ {
							if q, b, n, ok := msgs[done].Req(); ok {
								pl := binary.BigEndian.AppendUint32(nil, q)
								pl = binary.BigEndian.AppendUint32(pl, b)
								if !send(env.Msg{Type: 7, Payload: append(pl, tor.Piece(int64(q))[b:b+n]...)}.Bytes()) {
									return
								}
							}
						}
						if ended {
							return
						}
						select {
						case <-stop:
							return
						case <-time.After(5 * time.Millisecond):
						}
					}
				}
				for {
					select {
					case <-stop:
						return
					default:
					}
					if rate < 0 && sent.Load() > 1<<20 {
						return // (without a limit there would be no end)
					}
					var b []byte
					for n := 1 + pr.IntN(3000); n > 0; n-- {
						switch pr.IntN(5) {
						case 0:
							b = append(b, env.Msg{Type: -1}.Bytes()...)
						case 1:
							b = append(b, env.Msg{Type: pr.IntN(4)}.Bytes()...)
						default:
							b = append(b, env.Msg{Type: 4, Payload: binary.BigEndian.AppendUint32(nil, uint32(pr.Int64N(tor.NumPieces())))}.Bytes()...)
						}
					}
					if !send(b) {
						return
					}
				}
			}()
		}
		total := tor.Total()
		secs := 3 + r.Int64N(1+min(12, 1<<21/max(1, rate)))
		if rate < 0 {
			secs = 3
		}
		if live {
			secs = min(secs, 5)
		}
		if !flood {
			secs = 10
			if rate > 0 {
				secs = total/rate + 2
			}
			secs = min(secs+secs/4, 40) // (and more for what waits in vain for the request of the next piece)
		}
		for k := int64(0); k < secs*3; k++ {
			time.Sleep(time.Second / 3)
			settle()
			n, d := sent.Load(), time.Since(start)
			if rate >= 0 {
				m := (int64(d/time.Second)+1)*(rate-1+chunk) + int64(peers)*chunk
				if live {
					m += 2 * (rate - 1 + chunk) // (its seconds are not ours)
				}
				if n > m {
					t.Failf("too-fast", "-u %s -d %s: %d bytes from %d peers were taken within %v, at most %d are admitted", up, dn, n, peers, d, m)
					break
				}
				t.Event("limited downloads seen", 1)
			}
			if !flood {
				continue
			}
			m := int64(d/time.Second) * rate
			if live {
				m = m/2 - rate*2
				for rate < 0 && n < 1<<20 && time.Since(start) < time.Minute {
					time.Sleep(time.Second / 10)
					n = sent.Load()
				}
			}
			if n < m && rate >= 0 {
				t.Failf("too-slow", "-u %s -d %s: only %d bytes from %d peers were taken within %v", up, dn, n, peers, d)
				break
			}
			if rate < 0 && n < 1<<20 {
				t.Failf("limited", "-u %s -d %s: only %d bytes from %d peers were taken within %v", up, dn, n, peers, d)
				break
			}
		}
		if !flood && rate < 0 && !live && sent.Load() < min(total, 4*tor.PieceLen) {
			t.Failf("limited", "-d %s: after %v, of a torrent of %d bytes only %d bytes came", dn, time.Since(start), total, sent.Load())
		}
		t.Event("download limits at work", 1)
		close(stop)
		for p, ss := range all {
			if ss.IsDone() {
				t.Failf("gone", "-u %s -d %s: the client has left peer %d", up, dn, p)
			}
			if p%2 == 0 {
				ss.End.FailWrites() // (noticed when it writes next)
			}
			ss.C.Close()
		}
		s.RLIO.SetReadRate(-1)
		for _, ss := range all {
			<-ss.Done
		}
		settle()
	})
}

var _ = net.Listen
