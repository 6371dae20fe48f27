// C29: the running client survives hostile peers and keeps serving.
package main

import (
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verifharness/crowd"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/prog"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C29",
		Rule: "The program itself, as an unprivileged user, with generated torrents and sets of pieces owned, over sockets of the loopback interface. Crowds of peers do 26 hostile things at the same time (garbage, cut and slow handshakes, wrong " +
			"infohashes, floods, huge lengths, requests out of range, never reading, resets, half-closed connections, announcements that come and go, ...), more connections than file descriptors, thousands of connections, a hundred peers that connect or are dialled and say nothing, and megabytes that " +
			"belong to one message, connections that come and go one after another, long streams of all kinds of messages (with the heap measured before and after), while honest peers connect and request blocks, each of which must come, right, in time. Monitors: the process (alive, memory, descriptors, threads, CPU when idle), its goroutines at the end (from the dump " +
			"of the runtime), the bytes of its files, the tracker. Distinct by torrent and crowd.",
		Assumptions: []string{"an honest peer is served within 60 s on this machine whatever the load", "memory: 400 MB for crowds of at most 60 peers at a time"},
		Scenarios: []mon.Scenario{
			{Name: "rush", Quick: 24, Thorough: 200, Shards: 6, Nobody: true, StallSec: 250, Run: rush},
			{Name: "kinds", Quick: crowd.NKinds, Thorough: crowd.NKinds * 6, Shards: 6, Nobody: true, StallSec: 250, Run: kinds},
			{Name: "descriptors", Quick: 4, Thorough: 40, Shards: 4, Nobody: true, StallSec: 250, Run: descriptors},
			{Name: "thousands", Quick: 2, Thorough: 12, Shards: 1, Nobody: true, StallSec: 250, RSSMB: 6000, Alone: true, Run: thousands},
			{Name: "silent", Quick: 6, Thorough: 60, Shards: 3, Nobody: true, StallSec: 250, Run: silent},
			{Name: "idle", Quick: 4, Thorough: 24, Shards: 2, Nobody: true, StallSec: 250, Run: idle},
			{Name: "sequence", Quick: 2, Thorough: 12, Shards: 1, Nobody: true, StallSec: 250, Run: sequence},
			{Name: "growth", Quick: 8, Thorough: 60, Shards: 2, Nobody: true, StallSec: 250, Run: growth},
			{Name: "memory", Quick: 4, Thorough: 40, Shards: 2, Nobody: true, StallSec: 250, Run: memory},
		},
		Require: map[string]int{"honest peers served": 500, "blocks compared": 2000, "attacks": 5000, "programs watched": 40, "connections beyond the descriptors": 300, "connections at a time": 2000, "silent peers": 500, "idle peers": 1000, "growth measured": 6, "connections in a row": 4000, "messages in a row": 100000},
	})
}

// site is a running program with what belongs to it.
type site struct {
	*crowd.Crowd
	t      *mon.T
	p      *prog.Prog
	dir    string
	before map[string]string
	fds    int
	hold   chan struct{} // closed when the peers that the tracker knows are to leave
}

// start starts a program. owned of 0: none, 1: some, 2: all pieces.
func start(t *mon.T, pl int64, pieces int64, owned int, nofile int, known int) *site {
	r := t.Rng
	tr := env.Shared()
	tr.SetBody(env.OKBody(nil))
	tor := ref.GenTor(r, ref.TorOpts{Announce: tr.URL + "/a", PieceLen: pl, MaxFiles: 4, MaxLen: pl * pieces, MinTotal: pl * 2, Plain: true})
	s := &site{t: t, dir: filepath.Join(t.Dir(), "work")}
	content := append([]byte{}, tor.Content...)
	own := make([]bool, tor.NumPieces())
	for i := range own {
		own[i] = owned == 2 || owned == 1 && r.IntN(2) == 0
		if !own[i] {
			content[int64(i)*pl] ^= 1
		}
	}
	for f := range tor.Files {
		a := tor.Start(f)
		tor.SaveFile(s.dir, f, content[a:a+tor.Files[f].Len])
	}
	s.before = ref.Snapshot(s.dir)
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	for try := 0; ; try++ {
		port := prog.FreePort(r)
		s.Crowd = &crowd.Crowd{Tor: tor, Owned: own, Port: port}
		s.hold = make(chan struct{})
		if known < 0 {
			tr.SetBody(env.OKBody(s.Silent(-known, s.hold)))
		} else if known > 0 {
			tr.SetBody(env.OKBody(s.Listeners(r, known, s.hold)))
		}
		s.p = prog.Start(t, t.Dir(), "-i", file, "-w", s.dir, "-p", fmt.Sprint(port))
		if nofile > 0 {
			limitFiles(s.p.Cmd.Process.Pid, nofile)
		}
		if s.p.Ready(port, 60*time.Second) {
			break
		}
		if !s.p.PortTaken() || try > 5 {
			t.Failf("not-ready", "the program does not start\n%s\n%s", tor.Describe(), s.p.Tail())
			return nil
		}
	}
	if err := s.Serve(r, 3, time.Minute); err != nil {
		t.Failf("not-served", "before anything happens, %v\n%s", err, s.p.Tail())
		return nil
	}
	time.Sleep(100 * time.Millisecond)
	s.fds = s.numFDs()
	t.Key(tor.Raw)
	return s
}

// limitFiles sets the limit of file descriptors of a process of ours.
func limitFiles(pid, n int) {
	l := syscall.Rlimit{Cur: uint64(n), Max: uint64(n)}
	if _, _, e := syscall.RawSyscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, ptr(&l), 0, 0, 0); e != 0 {
		panic(e)
	}
}

func (s *site) numFDs() int {
	l, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", s.p.Cmd.Process.Pid))
	if err != nil {
		return -1
	}
	return len(l)
}

// status reads a number of the process's status.
func (s *site) status(key string) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.p.Cmd.Process.Pid))
	for _, l := range strings.Split(string(b), "\n") {
		if v, ok := strings.CutPrefix(l, key+":"); ok {
			n, _ := strconv.ParseInt(strings.Fields(v)[0], 10, 64)
			return n
		}
	}
	return -1
}

func (s *site) cpu() time.Duration {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/stat", s.p.Cmd.Process.Pid))
	t := string(b)
	f := strings.Fields(t[strings.LastIndexByte(t, ')')+1:])
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseInt(f[11], 10, 64)
	k, _ := strconv.ParseInt(f[12], 10, 64)
	return time.Duration(u+k) * 10 * time.Millisecond
}

// fail fails, with what the program says.
func (s *site) fail(fp, f string, a ...any) {
	s.t.Failf(fp, "%s\n%s\nthe program:\n%s", fmt.Sprintf(f, a...), s.Tor.Describe(), s.p.Tail())
}

// honest lets honest peers come and go until stop is closed.
func (s *site) honest(n int, patience time.Duration, stop <-chan struct{}) *sync.WaitGroup {
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewPCG(s.t.Rng.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				if err := s.Serve(r, 1+r.IntN(8), patience); err != nil {
					s.fail("not-served", "while others misbehave, %v", err)
					return
				}
				time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
			}
		}()
	}
	return &wg
}

var goroutine = regexp.MustCompile(`(?m)^goroutine [0-9]+ `)

// goroutines counts those of the program, without those of the runtime.
func goroutines(dump string) int {
	n := 0
	for _, b := range strings.Split(dump, "\n\n") {
		if goroutine.MatchString(b) && (strings.Contains(b, "gotor/") || strings.Contains(b, "main.main()")) {
			n++
		}
	}
	return n
}

// finish looks at what is left when all peers are gone.
func (s *site) finish(maxMB int64) {
	t := s.t
	close(s.hold)
	if !s.p.Running() {
		s.fail("ended", "the program ended")
		return
	}
	for i := 0; i < 5; i++ {
		if err := s.Serve(t.Rng, 4, time.Minute); err != nil {
			s.fail("not-served", "when the others are gone, %v", err)
			return
		}
	}
	// Descriptors
	n := 0
	for k := 0; k < 300; k++ {
		if n = s.numFDs(); n <= s.fds+3 {
			break
		}
		time.Sleep(50 * time.Millisecond)
	}
	if n > s.fds+3 {
		s.fail("descriptors", "%d file descriptors are open 15 s after all peers have left, %d before they came", n, s.fds)
	}
	if mb := s.status("VmHWM") >> 10; mb > maxMB {
		s.fail("memory", "the program has used %d MB of memory", mb)
	}
	// Idle
	idle := false
	var used time.Duration
	for k := 0; k < 5 && !idle; k++ {
		c := s.cpu()
		time.Sleep(500 * time.Millisecond)
		used = s.cpu() - c
		idle = used < 150*time.Millisecond
	}
	if !idle {
		s.fail("busy", "the program used %v of CPU time in half a second, though nothing happens", used)
	}
	if d := ref.DiffSnapshots(s.before, ref.Snapshot(s.dir)); d != "" {
		s.fail("files", "files changed: %s", d)
	}
	if !s.p.Running() {
		s.fail("ended", "the program ended")
		return
	}
	// Goroutines
	s.p.Cmd.Process.Signal(syscall.SIGQUIT)
	if _, ok := s.p.Wait(60 * time.Second); !ok {
		s.fail("hangs", "the program does not end on SIGQUIT")
		return
	}
	dump := s.p.Stderr()
	if i := strings.LastIndex(dump, "SIGQUIT"); i >= 0 {
		dump = dump[i:]
	}
	if g := goroutines(dump); g > 6 {
		t.Failf("goroutines", "%d goroutines are left when all peers have gone\n%s\n%.5000s", g, s.Tor.Describe(), dump)
	} else if g > 0 {
		t.Event("programs watched", 1)
	}
	total := int64(0)
	for k := range s.Attacks {
		total += s.Attacks[k].Load()
		t.Event("attack: "+crowd.KindName[k], int(s.Attacks[k].Load()))
	}
	t.Event("goroutines left", goroutines(dump))
	t.Event("attacks", int(total))
	t.Event("honest peers served", int(s.Honest.Load()))
	t.Event("blocks compared", int(s.Blocks.Load()))
	t.Event("requests of the program", int(s.Requests.Load()))
	t.Sample("%s: %d attacks, %d honest peers, %d blocks", s.Tor.Describe(), total, s.Honest.Load(), s.Blocks.Load())
}

func rush(t *mon.T, i int) {
	r := t.Rng
	s := start(t, []int64{1000, 16384, 16385, 40000}[r.IntN(4)], 20, 1+i%2, 0, r.IntN(10))
	if s == nil {
		return
	}
	stop := make(chan struct{})
	wg := s.honest(3, time.Minute, stop)
	s.Rush(r, 10+r.IntN(50), time.Duration(1500+r.IntN(1500))*time.Millisecond)
	close(stop)
	wg.Wait()
	s.finish(400)
}

func kinds(t *mon.T, i int) {
	r := t.Rng
	s := start(t, []int64{1000, 16384, 40000}[r.IntN(3)], 20, 1+r.IntN(2), 0, 0)
	if s == nil {
		return
	}
	stop := make(chan struct{})
	wg := s.honest(2, time.Minute, stop)
	s.Rush(r, 20, time.Second, i%crowd.NKinds)
	close(stop)
	wg.Wait()
	s.finish(400)
}

// descriptors takes all file descriptors of the program.
func descriptors(t *mon.T, i int) {
	r := t.Rng
	s := start(t, 16384, 10, 2, 60, 0)
	if s == nil {
		return
	}
	var conns []net.Conn
	for k := 0; k < 200; k++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 5*time.Second)
		if err != nil {
			break
		}
		conns = append(conns, c)
		if r.IntN(2) == 0 {
			c.Write(env.Handshake(s.Tor.Infohash, s.PeerID()))
		}
	}
	time.Sleep(time.Duration(r.IntN(2500)) * time.Millisecond)
	t.Event("connections beyond the descriptors", len(conns))
	for _, c := range conns {
		if r.IntN(2) == 0 {
			c.(*net.TCPConn).SetLinger(0)
		}
		c.Close()
	}
	s.finish(400)
}

// silent: peers that connect, or let the client connect, and say nothing, or
// not enough. None of them is to hold up another.
func silent(t *mon.T, i int) {
	r := t.Rng
	known := 0
	if i%3 > 0 {
		known = -100
		t.Event("silent peers", 100)
	}
	s := start(t, 16384, 10, 1+r.IntN(2), 0, known)
	if s == nil {
		return
	}
	stop := make(chan struct{})
	var wg sync.WaitGroup
	for k := 0; k < 100 && i%3 < 2; k++ {
		shake := env.Handshake(s.Tor.Infohash, s.PeerID())
		said := shake[:[]int{0, 0, 1, 20, 48, 67}[r.IntN(6)]]
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 10*time.Second)
				if err != nil {
					continue
				}
				t.Event("silent peers", 1)
				gone := make(chan struct{})
				go func() {
					select {
					case <-stop:
						c.Close()
					case <-gone:
					}
				}()
				c.Write(said)
				io.Copy(io.Discard, c) // until the client gives up
				close(gone)
				c.Close()
			}
		}()
	}
	time.Sleep(100 * time.Millisecond)
	for k := 0; k < 6; k++ {
		if err := s.Serve(r, 3, 40*time.Second); err != nil {
			s.fail("not-served", "beside 100 peers that say nothing, %v", err)
			break
		}
		time.Sleep(time.Duration(r.IntN(400)) * time.Millisecond)
	}
	close(stop)
	wg.Wait()
	s.finish(400)
}

// idle has hundreds of peers that are connected and want nothing: the client
// then has next to nothing to do.
func idle(t *mon.T, i int) {
	r := t.Rng
	s := start(t, 16384, 10, 2*(i%2), 0, 0) // with all pieces, or none
	if s == nil {
		return
	}
	const peers = 400
	var conns []net.Conn
	defer func() {
		for _, c := range conns {
			c.Close()
		}
	}()
	for k := 0; k < peers; k++ {
		c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 20*time.Second)
		if err != nil {
			s.fail("not-served", "a peer cannot connect: %v", err)
			return
		}
		conns = append(conns, c)
		b := env.Handshake(s.Tor.Infohash, s.PeerID())
		if r.IntN(2) == 0 {
			b = append(b, env.Msg{Type: 5, Payload: env.Bits(make([]bool, s.Tor.NumPieces()))}.Bytes()...)
		}
		if r.IntN(8) > 0 {
			c.Write(b)
		} else {
			c.Write(b[:r.IntN(68)]) // (turned away after a while)
		}
		go io.Copy(io.Discard, c)
	}
	t.Event("idle peers", peers)
	time.Sleep(2 * time.Second)
	const d = 3 * time.Second
	least := time.Duration(1 << 62)
	for k := 0; k < 3; k++ {
		before := s.cpu()
		time.Sleep(d)
		least = min(least, s.cpu()-before)
		if least < d/4 {
			break
		}
	}
	if least > d/2 {
		s.fail("busy", "with %d idle peers, the client uses %v of CPU in %v", peers, least, d)
	}
	t.Sample("%d idle peers: %v of CPU in %v", peers, least, d)
	for _, c := range conns {
		c.Close()
	}
	s.finish(400)
}

// thousands of connections at the same time.
func thousands(t *mon.T, i int) {
	r := t.Rng
	s := start(t, 4000, 10, 1+i%2, 0, 0)
	if s == nil {
		return
	}
	const n = 2500
	conns := make([]net.Conn, n)
	var wg sync.WaitGroup
	for w := 0; w < 20; w++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 2))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := w; k < n; k += 20 {
				c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 20*time.Second)
				if err != nil {
					continue
				}
				conns[k] = c
				c.Write(env.Handshake(s.Tor.Infohash, s.PeerID()))
				if rr.IntN(2) == 0 {
					b := make([]bool, len(s.Owned))
					b[rr.IntN(len(b))] = true
					c.Write(env.Msg{Type: 5, Payload: env.Bits(b)}.Bytes())
				}
			}
		}()
	}
	wg.Wait()
	up := 0
	for _, c := range conns {
		if c == nil {
			continue
		}
		c.SetReadDeadline(time.Now().Add(30 * time.Second))
		if _, err := io.ReadFull(c, make([]byte, 68)); err == nil {
			up++
		}
	}
	t.Event("connections at a time", up)
	for k := 0; k < 10; k++ {
		if err := s.Serve(r, 3, time.Minute); err != nil {
			s.fail("not-served", "beside %d connections, %v", up, err)
			break
		}
	}
	for _, c := range conns {
		if c != nil {
			if r.IntN(2) == 0 {
				c.(*net.TCPConn).SetLinger(0)
			}
			c.Close()
		}
	}
	s.finish(1500)
}

// memory: messages as long as can be.
func memory(t *mon.T, i int) {
	r := t.Rng
	s := start(t, 16384, 10, 2, 0, 0)
	if s == nil {
		return
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 3))
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", s.Port), 20*time.Second)
			if err != nil {
				return
			}
			defer c.Close()
			c.SetDeadline(time.Now().Add(30 * time.Second))
			go io.Copy(io.Discard, c)
			c.Write(env.Handshake(s.Tor.Infohash, s.PeerID()))
			typ := []byte{5, 7, 20, 4, 6, 255}[rr.IntN(6)]
			c.Write(append([]byte{[]byte{0x7f, 0x0f, 0xff, 0x04}[rr.IntN(4)], 0xff, 0xff, 0xf0}, typ))
			b := make([]byte, 1<<20)
			for n := 0; n < 100; n++ {
				if _, err := c.Write(b); err != nil {
					break
				}
			}
		}()
	}
	stop := make(chan struct{})
	hw := s.honest(2, time.Minute, stop)
	wg.Wait()
	close(stop)
	hw.Wait()
	s.finish(300)
}
