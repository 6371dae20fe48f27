// C25: rate limits are kept, and do not stop or corrupt traffic.
package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand/v2"
	"path/filepath"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	gio "gotor/io"
	"gotor/swarm"
	"verifharness/env"
	"verifharness/mon"
	"verifharness/ref"
)

func main() {
	mon.Main(mon.Check{
		ID: "C25", MaxPar: 24,
		Rule: "Rate limiters with random rates (1 byte to megabytes per second, none, zero), and chunk sizes from one byte to many times the rate, with bursts and pauses, in both directions at the same time. " +
			"In fake time, for a writer and a reader, also with rates that change between operations: over every interval between two recorded operations at most what the rate allows has passed, and nothing waits longer than the rate demands, or while less than the rate has passed in its own direction in the last second. In real time, under the race " +
			"detector: up to eight threads per direction, and a client with an upload limit that serves several peers: from the start on, never more has passed than the rate allows, and all arrives; and rates that change all the time, also while threads wait, after the last of which (none) all comes to its end. Chunks pass whole and unchanged, and errors are reported. " +
			"Distinct by rates, chunks and pauses.",
		Assumptions: []string{"a limit holds per second, and is exceeded by less than one chunk in it", "the caller reads from a reader that fills its buffer"},
		Scenarios: []mon.Scenario{
			{Name: "single", Quick: 600, Thorough: 15000, Shards: 8, Sync: true, Run: single},
			{Name: "turns", Quick: 400, Thorough: 10000, Shards: 8, Sync: true, Run: turns},
			{Name: "threads", Quick: 16, Thorough: 160, Shards: 8, Run: threads},
			{Name: "changes", Quick: 32, Thorough: 400, Shards: 8, Run: changes},
			{Name: "client", Quick: 8, Thorough: 80, Shards: 8, Nobody: true, Run: client},
		},
		Require: map[string]int{"operations": 15000, "had to wait": 2000, "intervals checked": 30000, "operations by threads": 5000, "errors reported": 200, "unlimited": 500, "blocks from a limited client": 30, "changes of the rate": 5000, "operations in turns": 30000, "waits in turns": 3000, "limits after none": 300},
	})
}

type ev struct {
	at time.Time
	n  int64
}

// sink is the writer or the reader below a limiter.
type sink struct {
	mu   sync.Mutex
	evs  []ev
	data bytes.Buffer // written
	src  byte         // to be read
	err  error
}

func (s *sink) Write(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return 0, s.err
	}
	s.evs = append(s.evs, ev{time.Now(), int64(len(b))})
	s.data.Write(b)
	return len(b), nil
}

func (s *sink) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return 0, s.err
	}
	s.evs = append(s.evs, ev{time.Now(), int64(len(b))})
	for i := range b {
		b[i] = s.src
		s.src += 7
	}
	return len(b), nil
}

// rateAndChunk makes a rate, and a function that makes chunk sizes.
func rateAndChunk(r *rand.Rand) (int64, int64) {
	rate := []int64{1, 2 + r.Int64N(20), 100 + r.Int64N(1000), 16384, 100000 + r.Int64N(3000000), -1}[r.IntN(6)]
	base := rate
	if rate < 0 {
		base = 1000
	}
	chunk := []int64{1, max(1, base/7), base, base + 1, base * 3, max(1, r.Int64N(base*2))}[r.IntN(6)]
	return rate, min(chunk, 1<<20)
}

// dir runs operations in one direction, in fake time.
func dir(t *mon.T, r *rand.Rand, rl *gio.RateLimitIO, write bool, rate, chunk int64, fail func(fp, f string, a ...any)) {
	s := &sink{}
	var want bytes.Buffer
	budget := int64(8) // seconds
	begin := time.Now()
	var last time.Time
	used := int64(0) // since the last pause
	pauseAt := begin
	most := int64(0)
	var sent byte
	for op := 0; op < 60 && time.Since(begin) < time.Duration(budget)*time.Second; op++ {
		if r.IntN(10) == 0 {
			time.Sleep(time.Duration(r.Int64N(int64(3 * time.Second))))
			pauseAt, used = time.Now(), 0
		}
		n := chunk
		if r.IntN(2) == 0 {
			n = r.Int64N(chunk + 1)
		}
		most = max(most, n)
		b := make([]byte, n)
		if r.IntN(20) == 0 {
			s.err = errors.New("injected")
		}
		var err error
		before := time.Now()
		if write {
			for i := range b {
				b[i] = sent
				sent += 7
			}
			err = rl.Write(s, b)
		} else {
			err = rl.Read(s, b)
		}
		last = time.Now()
		used += n
		if last.After(before) {
			t.Event("had to wait", 1)
		}
		if s.err != nil {
			if err != s.err {
				fail("error-lost", "the connection failed, and the result is %v", err)
				return
			}
			t.Event("errors reported", 1)
			s.err = nil
			if write {
				sent -= byte(n) * 7
			}
			continue
		}
		if err != nil {
			fail("error", "%v", err)
			return
		}
		want.Write(b)
		t.Event("operations", 1)
		if rate < 0 {
			t.Event("unlimited", 1)
			if last != before {
				fail("delayed", "there is no limit, and %d bytes took %v", n, last.Sub(before))
				return
			}
			continue
		}
		// progress: since the last pause, within every second as much as the rate
		limit := time.Duration(float64(used-n)/float64(rate)*float64(time.Second)) + 2*time.Second
		if d := last.Sub(pauseAt); d > limit {
			fail("too-slow", "%d bytes took %v, with a limit of %d per second", used, d, rate)
			return
		}
	}
	if rate >= 0 {
		interval(t, s.evs, rate, most, fail)
	}
	if write && !bytes.Equal(s.data.Bytes(), want.Bytes()) {
		fail("wrong-bytes", "what was written is not what arrived: %s", ref.DiffBytes(want.Bytes(), s.data.Bytes()))
	}
	if !write {
		x := byte(0)
		for i, c := range want.Bytes() {
			if c != x {
				fail("wrong-bytes", "byte %d read is %d, the source said %d", i, c, x)
				return
			}
			x += 7
		}
	}
}

// interval checks all intervals between operations.
func interval(t *mon.T, evs []ev, rate, chunk int64, fail func(fp, f string, a ...any)) {
	for i := range evs {
		sum := int64(0)
		for j := i; j < len(evs); j++ {
			sum += evs[j].n
			d := evs[j].at.Sub(evs[i].at)
			// all the seconds that the interval touches
			windows := int64(d/time.Second) + 2
			if m := windows * (rate - 1 + chunk); sum > m {
				fail("too-fast", "%d bytes in %v, with a limit of %d per second and chunks of at most %d", sum, d, rate, chunk)
				return
			}
			t.Event("intervals checked", 1)
		}
	}
}

func single(t *mon.T, i int) {
	r := t.Rng
	wr, wc := rateAndChunk(r)
	rr, rc := rateAndChunk(r)
	seedW, seedR := r.Uint64(), r.Uint64()
	desc := fmt.Sprintf("write rate %d, chunks up to %d; read rate %d, chunks up to %d", wr, wc, rr, rc)
	t.Key(desc, seedW, seedR)
	t.Sample("%s", desc)
	fail := func(fp, f string, a ...any) { t.Failf(fp, "%s\n%s", fmt.Sprintf(f, a...), desc) }
	synctest.Test(t.TT, func(_ *testing.T) {
		rl := gio.NewRateLimitIO()
		set := func(f func(int64), v int64) {
			if v < 0 {
				v = []int64{-1, -1, -2, -1 << 40}[r.IntN(4)]
			}
			f(v)
		}
		set(rl.SetWriteRate, wr)
		set(rl.SetReadRate, rr)
		time.Sleep(time.Duration(r.Int64N(int64(2 * time.Second))))
		stopped := make(chan struct{})
		go func() { rl.Run(); close(stopped) }()
		synctest.Wait()
		done := make(chan struct{}, 2)
		go func() {
			dir(t, rand.New(rand.NewPCG(seedW, 1)), rl, true, wr, wc, func(fp, f string, a ...any) { fail(fp, "writing: "+f, a...) })
			done <- struct{}{}
		}()
		go func() {
			dir(t, rand.New(rand.NewPCG(seedR, 2)), rl, false, rr, rc, func(fp, f string, a ...any) { fail(fp, "reading: "+f, a...) })
			done <- struct{}{}
		}()
		<-done
		<-done
		rl.Stop()
		<-stopped
	})
}

// turn runs operations in one direction, in fake time, under rates that change
// between them. An operation may wait only while what passed in its direction
// during the last second reaches the rate.
func turn(t *mon.T, r *rand.Rand, rl *gio.RateLimitIO, write bool, fail func(fp, f string, a ...any)) {
	s := &sink{}
	unit := []int64{1, 10, 1000, 20000}[r.IntN(4)]
	var passed []ev
	set, op := rl.SetReadRate, func(b []byte) error { return rl.Read(s, b) }
	if write {
		set, op = rl.SetWriteRate, func(b []byte) error { return rl.Write(s, b) }
	}
	rate := int64(-1)
	from, most := 0, int64(0) // of the time with this rate
	var x byte
	begin := time.Now()
	for k := 0; k < 250 && time.Since(begin) < 12*time.Second; k++ {
		if k == 0 || r.IntN(30) == 0 {
			if rate > 0 {
				interval(t, passed[from:], rate, most, fail)
			}
			v := []int64{-1, -1, unit, unit * 4, unit * (1 + r.Int64N(60)), 1}[r.IntN(6)]
			if rate < 0 && v > 0 && k > 0 {
				t.Event("limits after none", 1)
			}
			rate, from, most = v, len(passed), 0
			set(rate)
		}
		switch r.IntN(12) {
		case 0:
			time.Sleep(time.Duration(r.Int64N(int64(2500 * time.Millisecond))))
		case 1, 2, 3:
			time.Sleep(time.Duration(r.Int64N(int64(150 * time.Millisecond))))
		}
		n := 1 + r.Int64N(unit)
		if r.IntN(15) == 0 {
			n = r.Int64N(unit * 40)
		}
		most = max(most, n)
		b := make([]byte, n)
		if write {
			for j := range b {
				b[j] = x
				x += 7
			}
		}
		before := time.Now()
		if err := op(b); err != nil {
			fail("error", "%v", err)
			return
		}
		now := time.Now()
		t.Event("operations in turns", 1)
		if !write {
			for j := range b {
				if b[j] != x {
					fail("wrong-bytes", "byte %d of %d read is wrong", j, n)
					return
				}
				x += 7
			}
		}
		if d := now.Sub(before); d > 50*time.Millisecond {
			t.Event("waits in turns", 1)
			at := now.Add(-50 * time.Millisecond)
			sum := int64(0)
			for _, e := range passed {
				if !e.at.Before(at.Add(-time.Second)) {
					sum += e.n
				}
			}
			if rate < 0 || sum < rate {
				fail("waits", "with a limit of %d (none: -1) an operation of %d bytes waits for %v, though during the second before the end of it only %d bytes have passed in this direction", rate, n, d, sum)
				return
			}
		}
		passed = append(passed, ev{now, n})
	}
	if rate > 0 {
		interval(t, passed[from:], rate, most, fail)
	}
	if write {
		var y byte
		for j, c := range s.data.Bytes() {
			if c != y {
				fail("wrong-bytes", "byte %d written is wrong", j)
				return
			}
			y += 7
		}
	}
}

// turns: both directions at the same time, each with rates of its own.
func turns(t *mon.T, i int) {
	r := t.Rng
	seed := [2]uint64{r.Uint64(), r.Uint64()}
	t.Key(seed[0], seed[1])
	t.Sample("turns of seeds %x", seed)
	synctest.Test(t.TT, func(_ *testing.T) {
		rl := gio.NewRateLimitIO()
		time.Sleep(time.Duration(r.Int64N(int64(2 * time.Second))))
		stopped := make(chan struct{})
		go func() { rl.Run(); close(stopped) }()
		synctest.Wait()
		done := make(chan struct{}, 2)
		for k := range seed {
			go func() {
				name := []string{"reading: ", "writing: "}[k]
				turn(t, rand.New(rand.NewPCG(seed[k], 3)), rl, k == 1, func(fp, f string, a ...any) { t.Failf(fp, "%s%s", name, fmt.Sprintf(f, a...)) })
				done <- struct{}{}
			}()
		}
		<-done
		<-done
		rl.Stop()
		<-stopped
	})
}

// null takes and gives everything.
type null struct{}

func (null) Write(b []byte) (int, error) { return len(b), nil }
func (null) Read(b []byte) (int, error)  { return len(b), nil }

// changes: rates that change while threads write and read.
func changes(t *mon.T, i int) {
	r := t.Rng
	rl := gio.NewRateLimitIO()
	go rl.Run()
	var wg sync.WaitGroup
	var stop, ops atomic.Int64
	s := null{}
	for k := 0; k < 6; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			b := make([]byte, 10)
			for stop.Load() == 0 {
				var err error
				if k%2 == 0 {
					err = rl.Write(s, b)
				} else {
					err = rl.Read(s, b)
				}
				if err != nil {
					t.Failf("error", "%v", err)
				}
				ops.Add(1)
				if k > 3 {
					time.Sleep(time.Microsecond)
				}
			}
		}()
	}
	rates := []int64{-1, 0, 5, 1000, 1 << 40, -7}
	end := time.Now().Add(time.Duration(300+r.IntN(700)) * time.Millisecond)
	n := 0
	set := make(chan struct{})
	go func() {
		defer close(set)
		for ; time.Now().Before(end); n++ {
			rl.SetWriteRate(rates[r.IntN(len(rates))])
			rl.SetReadRate(rates[r.IntN(len(rates))])
			if r.IntN(20) == 0 {
				time.Sleep(time.Duration(r.IntN(20)) * time.Millisecond)
			} else {
				time.Sleep(time.Duration(r.IntN(100)) * time.Microsecond)
			}
		}
		rl.SetWriteRate(-1)
		rl.SetReadRate(-1)
	}()
	select {
	case <-set:
	case <-time.After(40 * time.Second):
		t.Failf("stuck", "after %d operations, a rate cannot be set", ops.Load())
		return
	}
	stop.Store(1)
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		t.Failf("stuck", "the limits are gone since 40 s, but some threads still wait (%d changes, %d operations)", n, ops.Load())
		return
	}
	rl.Stop()
	t.Key(i, n, ops.Load())
	t.Event("changes of the rate", n)
	t.Event("operations by threads", int(ops.Load()))
}

// threads: in real time, many threads per direction and connection.
func threads(t *mon.T, i int) {
	r := t.Rng
	var wg sync.WaitGroup
	for k := 0; k < 10; k++ {
		seed := r.Uint64()
		wg.Add(1)
		go func() {
			defer wg.Done()
			limiter(t, rand.New(rand.NewPCG(seed, uint64(k))))
		}()
	}
	wg.Wait()
}

func limiter(t *mon.T, r *rand.Rand) {
	rate := []int64{50, 1000 + r.Int64N(5000), 100000, -1, 0}[r.IntN(5)]
	chunk := 10 + r.Int64N(20)
	if rate > 0 && rate < 10000 && r.IntN(2) == 0 {
		chunk = rate + r.Int64N(rate)
	}
	write := r.IntN(2) == 0
	n := 2 + r.IntN(7)
	desc := fmt.Sprintf("write: %v, rate %d, chunks of up to %d bytes, %d threads", write, rate, chunk, n)
	t.Key(desc)
	t.Sample("%s", desc)
	fail := func(fp, f string, a ...any) { t.Failf(fp, "%s\n%s", fmt.Sprintf(f, a...), desc) }
	total := 5 * max(rate, chunk)
	if rate <= 0 {
		total = 100000
	}
	rl := gio.NewRateLimitIO()
	if write {
		rl.SetWriteRate(rate)
	} else {
		rl.SetReadRate(rate)
	}
	go rl.Run()
	defer rl.Stop()
	time.Sleep(time.Duration(r.Int64N(int64(200 * time.Millisecond)))) // (to get going)
	begin := time.Now()
	s := &sink{}
	var mu sync.Mutex
	left := total
	var wg sync.WaitGroup
	for k := 0; k < n; k++ {
		tr := rand.New(rand.NewPCG(r.Uint64(), uint64(k)))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				c := 10 + tr.Int64N(chunk)
				mu.Lock()
				if left <= 0 {
					mu.Unlock()
					return
				}
				left -= c
				mu.Unlock()
				b := bytes.Repeat([]byte{byte(k + 1)}, int(c))
				b[0] = 0 // (marks the start of a chunk)
				b[1], b[2] = byte(c>>8)|0x80, byte(c)|1
				var err error
				if write {
					err = rl.Write(s, b)
				} else {
					err = rl.Read(s, b)
				}
				if err != nil {
					fail("error", "%v", err)
				}
				t.Event("operations by threads", 1)
			}
		}()
	}
	if rate == 0 {
		time.Sleep(2500 * time.Millisecond)
		s.mu.Lock()
		defer s.mu.Unlock()
		if len(s.evs) > 0 {
			fail("too-fast", "with a limit of zero, %d operations", len(s.evs))
		}
		return // (the threads stay)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(40 * time.Second):
		fail("stuck", "after 40 seconds, %d of %d bytes are left", left, total)
		return
	}
	// From the start on, not more than the rate
	s.mu.Lock()
	defer s.mu.Unlock()
	sum := int64(0)
	for _, e := range s.evs {
		sum += e.n
		windows := int64(e.at.Sub(begin)/time.Second) + 2
		if m := windows * (rate - 1 + chunk + 10); rate > 0 && sum > m {
			fail("too-fast", "%d bytes within %v", sum, e.at.Sub(begin))
			return
		}
	}
	if rate < 0 && time.Since(begin) > 20*time.Second {
		fail("delayed", "there is no limit, and %d bytes took %v", total, time.Since(begin))
	}
	if write {
		whole(s.data.Bytes(), fail)
	}
}

// whole checks that chunks are not mixed up.
func whole(b []byte, fail func(fp, f string, a ...any)) {
	for at := 0; at < len(b); {
		if b[at] != 0 || at+3 >= len(b) {
			fail("mixed", "at byte %d, where a chunk should start, is %.20x", at, b[at:])
			return
		}
		k := b[at+3]
		end := at + 3
		for end < len(b) && b[end] != 0 {
			if b[end] != k {
				fail("mixed", "the chunk at byte %d of thread %d has bytes of thread %d", at, k, b[end])
				return
			}
			end++
		}
		at = end
	}
}

// client: a client with an upload limit serves several peers.
func client(t *mon.T, i int) {
	r := t.Rng
	rate := 20000 + r.Int64N(60000)
	tor := ref.GenTor(r, ref.TorOpts{Announce: env.Shared().URL + "/a", PieceLen: 32768, MaxFiles: 2, MaxLen: 600000, MinTotal: 400000, Plain: true})
	dir := filepath.Join(t.Dir(), "work")
	for f := range tor.Files {
		s := tor.Start(f)
		tor.SaveFile(dir, f, tor.Content[s:s+tor.Files[f].Len])
	}
	file := filepath.Join(t.Dir(), "x.torrent")
	tor.Save(file)
	o, err := env.Options(file, dir, "1", fmt.Sprintf("%dB", rate), "-1B")
	if err != nil {
		panic(err)
	}
	began := time.Now()
	s, err := swarm.NewSwarm(o)
	if err != nil {
		t.Failf("no-client", "%v", err)
		return
	}
	go s.RLIO.Run()
	t.Key(tor.Raw, rate)
	t.Sample("%s: upload limit %d", tor.Describe(), rate)
	c := &env.Client{Swarm: s, Dir: dir, Tor: tor}
	peers := 1 + r.IntN(4)
	var mu sync.Mutex
	sum := int64(0)
	var wg sync.WaitGroup
	want := 4 * rate / int64(peers) / 16384
	for p := 0; p < peers; p++ {
		wg.Add(1)
		seed := r.Uint64()
		go func() {
			defer wg.Done()
			pr := rand.New(rand.NewPCG(seed, uint64(p)))
			sess := env.Connect(c, 2000+p)
			sess.C.Write(env.Handshake(tor.Infohash, env.PeerID(p)))
			for k := int64(0); k < want; k++ {
				i := pr.Int64N(tor.NumPieces() - 1)
				begin := uint32(pr.IntN(2) * 16384)
				_, before, _, _, _ := sess.State()
				n := env.Count(before, 7)
				sess.C.Write(env.Request(uint32(i), begin, 16384).Bytes())
				if !sess.Wait(30*time.Second, func(_ []byte, m []env.Msg, _ bool) bool { return env.Count(m, 7) > n }) {
					t.Failf("stuck", "with a limit of %d, a block does not come within 30 seconds", rate)
					return
				}
				now := time.Since(began)
				mu.Lock()
				sum += 16384
				if m := (int64(now/time.Second) + 2) * (rate - 1 + 16384 + 13); sum > m {
					t.Failf("too-fast", "%d bytes from a client with a limit of %d, within %v", sum, rate, now)
				}
				mu.Unlock()
				_, msgs, _, _, _ := sess.State()
				for _, m := range msgs[len(before):] {
					if i, b, d, ok := m.Piece(); ok && !bytes.Equal(d, tor.Piece(int64(i))[b:int(b)+len(d)]) {
						t.Failf("wrong-bytes", "a wrong block of piece %d", i)
					}
				}
				t.Event("blocks from a limited client", 1)
			}
			sess.Finish()
		}()
	}
	wg.Wait()
	s.RLIO.Stop()
	s.Fileio.CloseAll()
}
