// C30: the running client has no data races.
package main

import (
	"fmt"
	"math/rand/v2"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/crowd"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/prog"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C30",
		Rule: "The program itself, built with the race detector, while crowds of peers (those that the tracker knows, and others that connect) announce, request, misbehave in 26 ways and leave, with and without rate limits, while it owns all, some or none " +
			"of the pieces; the race detector's reports are read. And the client in the process of the check, also built with the race detector, with many connections in memory that send messages in bursts, so that handlers, request loops and " +
			"read loops interleave tightly, and with peers over hours of fake time, so that keepalives and timeouts happen beside traffic. Distinct by torrent and history.",
		Assumptions: []string{"the race detector reports a race if the two accesses happen in an execution without synchronisation between them"},
		Scenarios: []mon.Scenario{
			{Name: "program", Quick: 24, Thorough: 240, Shards: 4, Nobody: true, StallSec: 400, Run: program},
			{Name: "sessions", Quick: 120, Thorough: 2000, Shards: 6, Run: sessions},
			{Name: "hours", Quick: 60, Thorough: 1000, Shards: 4, Sync: true, Run: hours},
		},
		Require: map[string]int{"programs watched": 16, "attacks": 2000, "blocks compared": 1000, "requests of the program": 30, "messages in memory": 10000, "requests in memory": 1000, "keepalives": 500},
	})
}

func program(t *mon.T, i int) {
	r := t.Rng
	tr := env.Shared()
	pl := []int64{1000, 16384, 16385, 40000}[r.IntN(4)]
	tor := ref.GenTor(r, ref.TorOpts{Announce: tr.URL + "/a", PieceLen: pl, MaxFiles: 4, MaxLen: pl * 30, MinTotal: pl * 5, Plain: true})
	dir := filepath.Join(t.Dir(), "work")
	content := append([]byte{}, tor.Content...)
	own := make([]bool, tor.NumPieces())
	for k := range own {
		own[k] = i%3 == 2 || i%3 == 1 && r.IntN(2) == 0
		if !own[k] {
			content[int64(k)*pl] ^= 1
		}
	}
	if i%3 == 0 {
		os.MkdirAll(dir, 0777)
		for k := range own {
			own[k] = strings.Trim(string(tor.Piece(int64(k))), "\x00") == ""
		}
	} else {
		for f := range tor.Files {
			a := tor.Start(f)
			tor.SaveFile(dir, f, content[a:a+tor.Files[f].Len])
		}
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	c := &crowd.Crowd{Tor: tor, Owned: own}
	hold := make(chan struct{})
	defer close(hold)
	tr.SetBody(env.OKBody(c.Listeners(r, 10, hold)))
	limit := []string{"-1", "5M", "300K", "1G"}[r.IntN(4)]
	var p *prog.Prog
	for try := 0; ; try++ {
		c.Port = prog.FreePort(r)
		p = prog.Start(t, t.Dir(), "-i", file, "-w", dir, "-p", fmt.Sprint(c.Port), "-u", limit, "-d", limit)
		if p.Ready(c.Port, 60*time.Second) {
			break
		}
		if !p.PortTaken() || try > 5 {
			t.Failf("not-ready", "the program does not start\n%s\n%s", tor.Describe(), p.Tail())
			return
		}
	}
	var wg sync.WaitGroup
	stop := make(chan struct{})
	for k := 0; k < 6; k++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				default:
				}
				c.Serve(rr, 1+rr.IntN(8), 20*time.Second) // (C29 judges)
			}
		}()
	}
	c.Rush(r, 20+r.IntN(20), time.Duration(1000+r.IntN(1000))*time.Millisecond)
	close(stop)
	wg.Wait()
	t.Key(tor.Raw, limit)
	t.Sample("%s, limit %s", tor.Describe(), limit)
	p.Kill()
	if n := races(t, p.Stderr()); n == 0 {
		t.Event("programs watched", 1)
	}
	total := 0
	for k := range c.Attacks {
		total += int(c.Attacks[k].Load())
	}
	t.Event("attacks", total)
	t.Event("honest peers served", int(c.Honest.Load()))
	t.Event("blocks compared", int(c.Blocks.Load()))
	t.Event("requests of the program", int(c.Requests.Load()))
}

// races reads the reports of the race detector.
func races(t *mon.T, log string) int {
	n := 0
	for _, b := range strings.Split(log, "==================") {
		if strings.Contains(b, "WARNING: DATA RACE") {
			n++
			t.Failf("data-race", "%s", b)
		}
	}
	return n
}

// sessions: many peers in memory. Races are reported by the detector in this
// process, and collected by the parent.
func sessions(t *mon.T, i int) {
	r := t.Rng
	pl := []int64{100, 16384, 40000}[r.IntN(3)]
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: pl, MaxFiles: 4, MaxLen: pl * 40, MinTotal: pl * 8, Plain: true})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = i%3 == 1 || i%3 == 2 && r.IntN(2) == 0
	}
	c := env.Seed(t, tor, owned)
	if c == nil {
		return
	}
	go c.RLIO.Run()
	defer c.RLIO.Stop()
	n := 4 + r.IntN(12)
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		rr := rand.New(rand.NewPCG(r.Uint64(), 1))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for round := 0; round < 3; round++ {
				peer(t, rr, c, tor, k*10+round)
			}
		}()
	}
	done := make(chan struct{})
	go func() {
		rr := rand.New(rand.NewPCG(uint64(i), 2))
		for {
			select {
			case <-done:
				return
			default:
				_ = c.String()
				c.RLIO.SetWriteRate([]int64{-1, 1 << 30, 1 << 40}[rr.IntN(3)])
				time.Sleep(time.Millisecond)
			}
		}
	}()
	wg.Wait()
	close(done)
	t.Key(tor.Raw, n)
	t.Sample("%s: %d peers", tor.Describe(), n)
}

func peer(t *mon.T, r *rand.Rand, c *env.Client, tor *ref.Tor, port int) {
	s := env.Connect(c, 1000+port)
	s.C.SetDeadline(time.Now().Add(20 * time.Second))
	var err error
	send := func(b []byte) {
		if err == nil {
			_, err = s.C.Write(b)
			t.Event("messages in memory", 1)
		}
	}
	send(env.Handshake(tor.Infohash, env.PeerID(port)))
	np := int(tor.NumPieces())
	for k := 5 + r.IntN(30); k > 0 && err == nil; k-- {
		switch r.IntN(6) {
		case 0, 1:
			b := make([]bool, np)
			for j := range b {
				b[j] = r.IntN(2) == 0
			}
			send(env.Msg{Type: 5, Payload: env.Bits(b)}.Bytes())
		case 2:
			if r.IntN(20) == 0 {
				send(env.Request(uint32(np), 0, 1).Bytes())
			} else {
				send(env.Msg{Type: -1}.Bytes())
			}
		case 3:
			time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
		default:
			j := r.IntN(np)
			l := len(tor.Piece(int64(j)))
			send(env.Request(uint32(j), uint32(r.IntN(l)), 1).Bytes())
		}
	}
	if r.IntN(3) == 0 {
		time.Sleep(time.Duration(r.IntN(250)) * time.Millisecond)
	}
	s.Finish()
	_, m, _, _, _ := s.State()
	t.Event("requests in memory", env.Count(m, 6))
	t.Event("blocks in memory", env.Count(m, 7))
}

// hours of fake time.
func hours(t *mon.T, i int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 16384, MaxFiles: 3, MaxLen: 16384 * 30, MinTotal: 16384 * 3, Plain: true})
	owned := make([]bool, tor.NumPieces())
	for k := range owned {
		owned[k] = r.IntN(2) == 0
	}
	c := env.Seed(t, tor, owned)
	if c == nil {
		return
	}
	synctest.Test(t.TT, func(_ *testing.T) {
		var wg sync.WaitGroup
		for k := 0; k < 2+r.IntN(6); k++ {
			rr := rand.New(rand.NewPCG(r.Uint64(), 3))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for round := 0; round < 4; round++ {
					s := env.Connect(c, 1000+k*10+round)
					s.C.Write(env.Handshake(tor.Infohash, env.PeerID(k)))
					for m := 10 + rr.IntN(20); m > 0; m-- {
						// Often at the times of keepalives and timeouts
						time.Sleep([]time.Duration{60 * time.Second, 119 * time.Second, time.Duration(rr.IntN(125)) * time.Second, 100 * time.Millisecond}[rr.IntN(4)])
						b := make([]bool, len(owned))
						b[rr.IntN(len(b))] = true
						msg := env.Msg{Type: 5, Payload: env.Bits(b)}.Bytes()
						if rr.IntN(2) == 0 {
							msg = env.Request(uint32(rr.IntN(len(b))), 0, 1).Bytes()
						}
						if _, err := s.C.Write(msg); err != nil {
							break
						}
						t.Event("messages in memory", 1)
					}
					s.Finish()
					_, l, _, _, _ := s.State()
					t.Event("keepalives", env.Count(l, -1))
					t.Event("requests in memory", env.Count(l, 6))
				}
			}()
		}
		wg.Wait()
	})
	t.Key(tor.Raw, i)
}
