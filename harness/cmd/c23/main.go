// C23: keepalives and idle timeouts are on time.
package main

import (
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

const (
	keepalive = 60 * time.Second
	idle      = 120 * time.Second
	slack     = time.Second
)

func main() {
	mon.Main(mon.Check{
		ID: "C23",
		Rule: "One to four peers per client, or crowds of up to 50, that send bytes at random times: whole messages, or single bytes of messages, with gaps that are short, just below the idle timeout, just above, or far above; for up to " +
			"several days of fake time; with and without pieces that the client requests, before. Monitors over recorded times: keepalives come every 60 seconds while nothing else is sent, the connection stays open as long as all gaps " +
			"are below 120 s, and is closed 120 s after the last byte. Distinct by the times and bytes sent.",
		Assumptions: []string{"times are right within a second"},
		Scenarios: []mon.Scenario{
			{Name: "schedules", Quick: 900, Thorough: 40000, Shards: 8, Nobody: true, Sync: true, Run: schedules},
			{Name: "long", Quick: 40, Thorough: 1200, Shards: 4, Nobody: true, Sync: true, Run: long},
			{Name: "days", Quick: 8, Thorough: 120, Shards: 4, Nobody: true, Sync: true, Run: days},
		},
		Require: map[string]int{"keepalives on time": 10000, "idle peers disconnected": 600, "gaps survived": 8000, "near misses survived": 2000, "hours watched": 50},
	})
}

type step struct {
	gap  time.Duration
	data []byte
}

func schedules(t *mon.T, i int) { run(t, i, 20) }
func long(t *mon.T, i int)      { run(t, i, 200) }
func days(t *mon.T, i int)      { run(t, i, 3000) }

func run(t *mon.T, i, most int) {
	r := t.Rng
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", MaxPiece: 100})
	owned := make([]bool, tor.NumPieces())
	all := r.IntN(2) == 0
	for k := range owned {
		owned[k] = all || r.IntN(2) == 0
	}
	c := env.Seed(t, tor, owned)
	if c == nil {
		return
	}
	peers := 1 + r.IntN(4)
	if most > 1000 {
		peers = 1
	}
	if i%50 == 0 && most < 1000 {
		peers = 20 + r.IntN(30)
		t.Event("crowds", 1)
	}
	plans := make([][]step, peers)
	for p := range plans {
		n := r.IntN(most)
		if most > 1000 {
			n = most - r.IntN(100)
		}
		var rest []byte
		for k := 0; k <= n; k++ {
			if len(rest) == 0 {
				switch r.IntN(4) {
				case 0:
					rest = env.Msg{Type: -1}.Bytes()
				case 1:
					rest = env.Msg{Type: 5, Payload: make([]byte, (len(owned)+7)/8)}.Bytes()
				case 2:
					rest = env.Msg{Type: 20 + r.IntN(200), Payload: make([]byte, 1+r.IntN(60))}.Bytes()
				default:
					rest = env.Msg{Type: r.IntN(4)}.Bytes()
				}
			}
			m := len(rest)
			if r.IntN(2) == 0 {
				m = 1 + r.IntN(len(rest))
			}
			var gap time.Duration
			switch r.IntN(5) {
			case 0:
				gap = time.Duration(r.Int64N(int64(10 * time.Second)))
			case 1, 2:
				gap = idle - slack - time.Duration(r.Int64N(int64(3*time.Second)))
			case 3:
				gap = time.Duration(r.Int64N(int64(idle - slack)))
			default:
				gap = keepalive + time.Duration(r.Int64N(int64(2*time.Second))) - time.Second
			}
			if k == n { // the last gap is too long
				gap = idle + 2*slack + time.Duration(r.Int64N(int64(time.Hour)))
				if r.IntN(2) == 0 {
					gap = idle + 2*slack
				}
			}
			plans[p] = append(plans[p], step{gap, rest[:m]})
			rest = rest[m:]
		}
	}
	t.Key(fmt.Sprint(plans))
	t.Sample("%d peers, the first: %.300v", peers, plans[0])
	synctest.Test(t.TT, func(_ *testing.T) {
		done := make(chan struct{})
		for p := range plans {
			go func() {
				defer func() { done <- struct{}{} }()
				one(t, c, p, plans[p])
			}()
		}
		for range plans {
			<-done
		}
	})
}

func one(t *mon.T, c *env.Client, p int, plan []step) {
	s := env.Connect(c, 2000+p)
	defer s.Finish()
	time.Sleep(time.Duration(p%5) * 7 * time.Second / 10 / 4)
	begin := time.Now()
	s.C.Write(env.Handshake(c.Tor.Infohash, env.PeerID(p)))
	if !s.Wait(slack, func(_ []byte, msgs []env.Msg, _ bool) bool { return len(msgs) >= 2 }) {
		_, m, _, ended, err := s.State()
		t.Failf("no-session", "no session after a right handshake: %v, ended %v %v", m, ended, err)
		return
	}
	last := begin
	for k, st := range plan {
		if k == len(plan)-1 {
			break
		}
		time.Sleep(st.gap)
		if _, _, _, ended, err := s.State(); ended {
			t.Failf("too-early", "peer %d: disconnected %v after the last byte (%v)\n%.800v", p, time.Since(last), err, plan[:k+1])
			return
		}
		if _, err := s.C.Write(st.data); err != nil {
			t.Failf("too-early", "peer %d: cannot send %v after the last byte: %v\n%.800v", p, time.Since(last), err, plan[:k+1])
			return
		}
		last = time.Now()
		t.Event("gaps survived", 1)
		if st.gap > idle-5*time.Second {
			t.Event("near misses survived", 1)
		}
	}
	final := plan[len(plan)-1].gap
	if !s.WaitEnd(final) {
		t.Failf("not-ended", "peer %d: still connected %v after the last byte", p, time.Since(last))
		return
	}
	at := time.Now()
	if d := at.Sub(last); d < idle-slack || d > idle+slack {
		t.Failf("not-on-time", "peer %d: disconnected %v after the last byte", p, d)
		return
	}
	if time.Sleep(slack); !s.IsDone() || !s.End.Closed() {
		t.Failf("not-ended", "peer %d: a second after it was disconnected, its handler has returned: %v", p, s.IsDone())
		return
	}
	t.Event("idle peers disconnected", 1)
	t.Event("hours watched", int(at.Sub(begin).Hours()+0.5))
	// the keepalives
	_, msgs, times, _, _ := s.State()
	prev, other := begin, false
	for k, m := range msgs {
		if m.Type != -1 {
			if k >= 2 { // (the bitfield and the unchoke)
				other = true
			}
			continue
		}
		d := times[k].Sub(prev)
		if !other && (d < keepalive-slack || d > keepalive+slack) {
			t.Failf("keepalive", "peer %d: a keepalive came %v after the previous one (number %d)", p, d, k)
			return
		}
		t.Event("keepalives on time", 1)
		prev, other = times[k], false
	}
	if d := at.Sub(prev); d > keepalive+slack {
		t.Failf("keepalive", "peer %d: no keepalive for the last %v of the connection", p, d)
	}
}
